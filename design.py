"""Text of DESIGN.md: gen.py fills in the part which comes from spec.py and checks.py."""

# How each property is decided: what is generated, against what oracle
HOW = {
"C01": "Arguments by magnitude over the whole exponent range, near the switches of each algorithm (quadrants, powers of two, saturation) and special values. Differential oracle: the C library in long double; plus round trips (sqrt of a square, cbrt of a cube), exact integer powers, monotonicity of neighbouring arguments, NaN propagation. Run with the x87 and with the portable algorithms.",
"C02": "64-bit integers by bit length and next to powers. Oracle: 128-bit integer arithmetic, and for fractions cross multiplication and the field axioms; bit-reversal is checked as an involutive permutation.",
"C03": "Both signs, by magnitude, next to poles and overflow. Oracle: tgammal, lgammal with the reflection formula; agreement of the natural, half-integer, general, logarithmic and Beta forms.",
"C04": "Sizes, element types and storages generated independently; every form of every operation (operator, in-place, named function, out-of-place) is compared with a componentwise model in long double, then algebraic laws (bilinearity, Cauchy-Schwarz, Lagrange's identity, orthogonality), aliased operands included.",
"C05": "Shapes generated independently for each operand, static / dynamic / mixed storage, both memory layouts. Oracle: entrywise model in long double, associativity and transposition laws, predicates against their definition.",
"C06": "Invertible matrices with frequent zero pivots and bounded condition number, exactly singular integer matrices, positive definite ones. Oracle: residuals relative to the condition number from an independent pivoted elimination in long double, exact integer determinants, reconstruction of LU and Cholesky factors.",
"C07": "Matrices are built from a chosen spectrum (symmetric by rotations, general by similarities), so that the answer is known. Oracle: the chosen eigenvalue, the residual |Av - lv|, bounds of the Rayleigh quotient; failing to converge within the allowed iterations must be reported.",
"C08": "Angles, axes, volumes, cameras, quaternions. Oracle: Rodrigues' formula, definitions of the projections, 4x4 real representation of quaternions; orthogonality, determinant, composition laws.",
"C09": "Vectors with null, repeated, integer components. Oracle: definitions in long double; metric axioms (symmetry, identity, triangle inequality) as metamorphic relations; scaling across magnitudes.",
"C10": "The plane with a third of points on axes or lattice points, and the same relation at every magnitude. Oracle: std::complex<long double>, field axioms, polar round trips, agreement with the real functions on the real axis.",
"C11": "Random straight-line programs over the whole operation set, kept in domain by the reference. Oracle: an independent second-order jet arithmetic in long double (harness/jets.hpp), executed on the same program; gradient, divergence, Jacobian, curl, Laplacian and directional derivative of generated fields.",
"C12": "As C11 with dual2 numbers, and the second derivatives of the same jets.",
"C13": "Coefficient lists, integer (exact) and real, with trailing zeros and different lengths. Oracle: plain coefficient arithmetic; division judged by q b + r = a and the degree of r; quadratics built from their roots, with cancellation.",
"C14": "Orders, arguments, random integrands up to the degree of exactness. Oracle: recurrences in long double, exact moments of polynomials; orthogonality.",
"C15": "Random polynomials (exactness degree), smooth functions and expression programs. Oracle: exact derivatives and primitives, with the error term of the method; convergence orders under refinement.",
"C16": "Random linear, forced and non-linear fields. Oracle: an independent evaluation of each Butcher tableau in long double, one step and whole trajectories; grid of times, last step, convergence to the matrix exponential, linearity.",
"C17": "Functions with a single known sign change of many shapes, open methods started within their basin, polynomials built from their roots. Oracle: the known root and the requested tolerance; functions without roots must report.",
"C18": "Knots, data and parameters. Oracle: dense solve of the natural spline system, Bernstein sums, Lagrange form in long double; continuity of value, first and second derivative across knots.",
"C19": "Unimodal functions and strictly convex fields with a chosen extremum. Oracle: the chosen extremum to the asked tolerance, the kind of extremum, reports on failure.",
"C20": "Sequences of every length and size. Oracle: direct Fourier sums in long double, inverse, linearity, Parseval, shift.",
"C21": "Data sets of many shapes. Oracle: two-pass formulas in long double; quadruple precision for the compensated sums; both container types.",
"C22": "Parameters, arguments in and out of the support. Oracle: formulas with lgammal / expl, finite tail sums; normalisation; likelihood as product of densities.",
"C23": "Points in many units and weights. Oracle: centred normal equations in long double, stationarity of the chi square when both coordinates have errors; propagation against reference jets.",
"C24": "Stateful: histories of insertions against a model holding the list of accepted values.",
"C25": "Stateful: histories of operations (next, seed, discard, copy, shuffle) on generators and copies against reference generators written from the published algorithms.",
"C26": "Seeds, parameters, scripted generators that return the extreme uniform numbers. Oracle: distribution functions with Kolmogorov-Smirnov and moment thresholds exceeded with probability below 1e-12, reproducibility, known integrals and variances.",
"C27": "Histories and concurrent schedules of catalogue calls (harness/catalogue.hpp). Oracle: the same call alone in a fresh state, bit for bit; ThreadSanitizer for races; parallel map against the sequential one for any number of threads.",
"C28": "About 340 failing calls (they reach 385 of the library's 396 reporting sites; the others are not reachable) and the catalogue of successful ones, in the three configurations. Oracle: the documented code through errno and/or exception, NaN results; untouched errno on success.",
"C29": "Values, separators and input lines. Oracle: a formatting model and parsing the text back; reading against a model of the line grammar.",
"C30": "Random translation units: headers, order, compiler, standard, macros, one or two units. Oracle: it compiles, links, and a use of each header gives its known answers.",
"C31": "The same problems in float, long double, branchless and portable builds. Oracle: long double references, tolerances a small multiple of the epsilon of the type.",
}

HEAD = """# Design

theoretica is a header-only C++ library of numerical mathematics. What its users rely on is that each function
computes, *for every argument, size, storage and configuration*, the mathematical object its documentation names, and
that it says so when it cannot. The unit tests sample fixed points of fixed intervals with loose tolerances; the
properties below quantify over arguments, operation sequences, schedules, shapes and build configurations.

## Machinery

* `engine/pbt.hpp`, `engine/main.cpp`: a small property-based testing engine. A law draws its inputs from a tape of
  random choices; a failing tape is shrunk (deletion and minimisation of choices, the failure being re-run each time)
  and written as the replay file. Laws run in parallel processes, each with a time limit, so that crashes and
  non-termination are failures of the case that caused them and are shrunk as well. A failure which needs what earlier
  cases left behind (static state) is retried with the cases that came before it, and its replay file records that
  history (seed, first case, number of cases) instead of a single tape. The engine counts cases, distinct
  non-trivial cases (by the rule each law states) and labels, and keeps samples; `run.py` writes them in `evidence/`.
* `harness/cNN_*.cpp`: the laws, one file per property. `harness/common.hpp` (comparison helpers), `linref.hpp`
  (long double linear algebra), `jets.hpp` (reference automatic differentiation and random programs),
  `catalogue.hpp` (families of calls across the library), `failures.hpp` (failing calls).
* `run.py` builds each harness from /repo's working tree (address and undefined behaviour sanitizers on, one build for
  each configuration in `checks.py`), runs it, merges the evidence, prints `VIOLATION` lines, and replays
  (`run.py --replay FILE`). Builds are in a scratch directory which is removed. `headers.py` and `snippets.py` are the
  generator of translation units of C30.
* `spec.py` holds the properties, `gen.py` writes `properties.jsonl`, `MANIFEST.json` and this file.

`quick` runs the number of cases stated in each law (5 to 40 s for a property including the build); `thorough` multiplies
it (12 times unless `checks.py` says otherwise). The seed is `VERIF_SEED`. A pass means that no generated case failed:
the search is random, nothing is proved, and every check is at level "exploration". Tolerances come from the error
analysis of each algorithm (a small multiple of epsilon times the condition of the problem, or the accuracy that the
algorithm documents) and were then tightened with `slack` measurements: for each comparison, the largest observed
ratio of error to tolerance over many seeds stays below about 1/3.

No hooks are needed in /repo: every property is observable through public functions.

## Properties

"""

TAIL = """
## Defects found

%d defects were found and repaired, each by a minimal `fix:` commit in /repo, listed in `known_findings.txt` as
`fixed:` (a fixed entry suppresses nothing). No recorded, unrepaired finding remains.

## False alarms that were corrected in the machinery

* C24 tolerance for denormal data; C26 tolerance of hit-or-miss integrals where the spread is null.
* C28 table entries which expected too much: dual/dual division by zero (not reported), complex NaN with zero imaginary
  part, gamma at a pole (returns infinity), a linear model without uncertainties (NaN uncertainties are documented),
  in-place transformation of a run-time sized vector by a rectangular matrix (works), derivative of a tangent at a pole.
* C30 snippets with wrong member names or with accuracies that only the x87 build has.
* C11, C12 tolerance of the arcs; C31 tolerances of expm1, of compensated sums and of portable quadratics, after tightening.

## What the properties leave out

Behaviour which the documentation leaves open, or which the interface cannot express:
magnitudes below MACH_EPSILON count as zero for division errors (documented); the product vec * mat; empty vectors in dot
products and norms; products of static and run-time matrices that are not square; asin of a dual number at -1; the gradient
of a constant function of run-time size; `roots` of an empty or constant polynomial, repeated roots lying on a grid point
of `roots` or on the edge of the Cauchy bound; Newton's method at a multiple root; `invlerp` on a null interval and its
vector form; Bernoulli distribution for k >= 2, binomial with more successes than trials; `fft` of real vectors; Weyl
sequences with n alpha >= 2^31; histograms with 0 bins; a Metropolis acceptance with a uniform number exactly 0;
`rand_uniform` with precision 0; ill-conditioned regressions (condition above 1e6); slope and intercept helpers with equal
abscissae; exceptions leaving an OpenMP region and errno set in its worker threads; `phasor::to_string` ignoring its
separator; ambiguous mixed expressions such as `complex * int`; default tolerances (1e-8) in single precision; the accuracy
of the complex square root next to its cut, which is about the square root of epsilon.

## Planted bugs

`seeded/` holds changes that break a property while compiling and passing the tests, each with its demonstration.

| change | property | caught by its check |
|---|---|---|
%s
## Mutation campaign

Besides the planted bugs, single-token mutants of the headers (operators, comparisons, constants, off-by-one, removed
statements) were run against the checks of the files they touch, with the harnesses at a third of the quick effort.
%s
"""
MUT = "The campaign is in progress."
