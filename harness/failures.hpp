// More failing calls, one for each way in which a function of the library can refuse its arguments
template<typename Mt> static void diag(D& d, const Mt& m) { for (unsigned i = 0; i < m.rows() && i < m.cols(); ++i) add(d, real_part(m(i, i))); }
template<typename Vt> static void all(D& d, const Vt& v) { for (size_t i = 0; i < v.size(); ++i) add(d, real_part(v[i])); }
typedef th::mat<real, 3, 3> M3; typedef th::mat<real, 2, 3> M23; typedef th::vec<real, 3> V3; typedef th::vec<real, 2> V2; typedef th::multidual<2> MD;
static MD md(real x) { return MD(x, V2({1, 2})); }
static void addm(D& d, const MD& x) { add(d, x.Re()); add(d, x.Dual()[0]); add(d, x.Dual()[1]); }
static void add2(D& d, const th::dual2& x) { add(d, x.Re()); add(d, x.Dual1()); }
static V sized(R& g, int n) { return g.v(n, 1, 2); }
static int other(R& g, int n) { int k = g.i(0, n + 3); return k == n ? n + 1 : k; }          // a size which is not n
static int other1(R& g, int n) { int k = g.i(1, n + 3); return k == n ? n + 1 : k; }
static th::dual sq1(th::dual x) { return x * x + th::dual(1); } static th::dual2 sq2(th::dual2 x) { return x * x + th::dual2(1); }
static real quad(real x) { return x * x - 2; } static real dquad(real x) { return 2 * x; }
static real sqr_(real x) { return x * x; } static real nsqr_(real x) { return -x * x; } static real ndquad_(real x) { return -2 * x; } static real two_(real) { return 2; } static real mtwo_(real) { return -2; }
static th::complex<> zquad(th::complex<> z) { return z * z - th::complex<>(2); } static th::complex<> dzquad(th::complex<> z) { return z * (real) 2; }
static MD bowl(th::vec<MD, 2> v) { return v[0] * v[0] + v[1] * v[1] * (real) 3; } static MD cap(th::vec<MD, 2> v) { return -bowl(v); }
static th::autodiff::dvec_t<2> field2(th::autodiff::dvec_t<2> v) { th::autodiff::dvec_t<2> r; r[0] = v[0] * v[0] + (real) 1; r[1] = v[1] * v[1] + (real) 1; return r; }
static th::autodiff::dvec_t<0> fieldn(th::autodiff::dvec_t<0> v) { return v; }
static real density(real x, const V& t) { return 0; } static real never(real) { return 1e300; } static real ident(real x) { return x; }
static M rotating() { M a(2, 2); a(0, 0) = 0; a(0, 1) = -1; a(1, 0) = 1; a(1, 1) = 0; return a; }

static const std::vector<Bad> bad2 = {
	B("tangent at a pole", DIV, add(d, th::tan((real) th::PI2 * (g.i(0, 1) ? 1 : -1)))), B("tangent of a dual number at a pole", DIV, add(d, th::tan(th::dual((real) th::PI2, g.r(1, 2))).Re())), B("tangent of a second order dual number at a pole", DIV, add(d, th::tan(th::dual2((real) th::PI2, 1, g.r(1, 2))).Re())), B("tangent of a multidual number at a pole", DIV, add(d, th::tan(md((real) th::PI2)).Re())),
	B("method transform, vector of another type and size", ARG, int n = g.i(1, 4); M a = g.m(n, n); all(d, a.transform(std::vector<real>(other(g, n), 1.0)))),
	// swapping, normalising, transposing
	B("swap of a first row out of range", ARG, int n = g.i(1, 4); M a = g.m(n, 3); th::algebra::mat_swap_rows(a, n + g.i(0, 3), 0); diag(d, a)),
	B("swap of a second row out of range", ARG, int n = g.i(1, 4); M a = g.m(n, 3); th::algebra::mat_swap_rows(a, 0, n + g.i(0, 3)); diag(d, a)),
	B("swap of a first column out of range", ARG, int n = g.i(1, 4); M a = g.m(3, n); th::algebra::mat_swap_cols(a, n + g.i(0, 3), 0); diag(d, a)),
	B("swap of a second column out of range", ARG, int n = g.i(1, 4); M a = g.m(3, n); th::algebra::mat_swap_cols(a, 0, n + g.i(0, 3)); diag(d, a)),
	B("normalisation of a null vector in place", DIV, V v((unsigned) g.i(1, 6), 0); th::algebra::make_normalized(v); all(d, v)),
	B("cross product, second vector not of size 3", ARG, all(d, th::algebra::cross(sized(g, 3), sized(g, other(g, 3))))),
	B("cross product, first vector not of size 3", ARG, V v = sized(g, other1(g, 3)); auto r = th::algebra::cross(v, sized(g, 3)); all(d, r)),
	B("method cross, other vector not of size 3", ARG, V v = sized(g, 3); all(d, v.cross(sized(g, other(g, 3))))),
	B("method cross of a static vector, other not of size 3", ARG, V3 v({1, 2, 3}); all(d, v.cross(sized(g, other(g, 3))))),
	B("transposition in place of a rectangular matrix", ARG, int n = g.i(1, 4); M a = g.m(n, n + 1); th::algebra::make_transposed(a); diag(d, a)),
	B("transposition in place of a tall matrix", ARG, int n = g.i(1, 4); M a = g.m(n + 1, n); th::algebra::make_transposed(a); diag(d, a)),
	B("transposition into a matrix with too few columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n + 1, k), r = g.m(k, n); th::algebra::transpose(r, a); diag(d, r)),
	B("transposition into a matrix with too few rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k + 1), r = g.m(k, n); th::algebra::transpose(r, a); diag(d, r)),
	B("hermitian conjugation in place of a rectangular matrix", ARG, int n = g.i(1, 4); M a = g.m(n, n + 1); th::algebra::make_hermitian(a); diag(d, a)),
	B("hermitian conjugation into a matrix with too few columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n + 1, k), r = g.m(k, n); th::algebra::hermitian(r, a); diag(d, r)),
	B("hermitian conjugation into a matrix with too few rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k + 1), r = g.m(k, n); th::algebra::hermitian(r, a); diag(d, r)),
	// linear combinations
	B("scalar multiple into a matrix with other rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), r = g.m(n + 1, k); th::algebra::mat_scalmul(r, (real) 2, a); diag(d, r)),
	B("scalar multiple into a matrix with other columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), r = g.m(n, k + 1); th::algebra::mat_scalmul(r, (real) 2, a); diag(d, r)),
	B("scalar multiple into a vector of another size", ARG, int n = g.i(1, 4); V r = sized(g, other1(g, n)); th::algebra::vec_scalmul(r, (real) 2, sized(g, n)); all(d, r)),
	B("transformation in place of a vector of another size", ARG, int n = g.i(1, 4); V v = sized(g, other1(g, n)); th::algebra::apply_transform(g.m(n, n), v); all(d, v)),
	B("transformation in place of a static vector by a rectangular matrix", ARG, V3 v({1, 2, 3}); th::algebra::apply_transform(g.m(other1(g, 3), 3), v); all(d, v)),
	B("triangular system with a full matrix", ARG, int n = g.i(2, 4); M a = g.m(n, n); a(0, n - 1) = g.r(1, 2); a(n - 1, 0) = g.r(1, 2); all(d, th::algebra::solve_triangular(a, sized(g, n)))),
	B("transformation of a vector of another size", ARG, int n = g.i(1, 4), k = g.i(1, 4); V r = th::algebra::transform(g.m(n, k), sized(g, other1(g, k))); all(d, r)),
	B("transformation into a vector of another size", ARG, int n = g.i(1, 4), k = g.i(1, 4); V r = sized(g, other1(g, n)); th::algebra::transform(r, g.m(n, k), sized(g, k)); all(d, r)),
	B("transformation into a vector, operand of another size", ARG, int n = g.i(1, 4), k = g.i(1, 4); V r = sized(g, n); th::algebra::transform(r, g.m(n, k), sized(g, other1(g, k))); all(d, r)),
#define TWO(name, F) \
	B(name ", other rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n + 1, k); F(a, b); diag(d, a)), \
	B(name ", fewer rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n + 1, k), b = g.m(n, k); F(a, b); diag(d, a)), \
	B(name ", other columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n, k + 1); F(a, b); diag(d, a)), \
	B(name ", fewer columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k + 1), b = g.m(n, k); F(a, b); diag(d, a))
#define THREE(name, F) \
	B(name ", operands with other rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n + 1, k), r = g.m(n, k); F(r, a, b); diag(d, r)), \
	B(name ", operands with other columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n, k + 1), r = g.m(n, k); F(r, a, b); diag(d, r)), \
	B(name ", result with other rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n, k), r = g.m(n + 1, k); F(r, a, b); diag(d, r)), \
	B(name ", result with other columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n, k), r = g.m(n, k + 1); F(r, a, b); diag(d, r))
#define COMB2(a, b) th::algebra::mat_lincomb((real) 2, a, (real) 3, b)
#define COMB3(r, a, b) th::algebra::mat_lincomb(r, (real) 2, a, (real) 3, b)
	TWO("sum of matrices in place", th::algebra::mat_sum), TWO("difference of matrices in place", th::algebra::mat_diff), TWO("combination of matrices in place", COMB2),
	THREE("sum of matrices", th::algebra::mat_sum), THREE("difference of matrices", th::algebra::mat_diff), THREE("combination of matrices", COMB3),
	B("product of matrices which do not match", ARG, int n = g.i(1, 4), k = g.i(1, 4); diag(d, th::algebra::mat_mul(g.m(n, k), g.m(other1(g, k), n)))),
	B("product into a matrix with other rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); M r = g.m(n + 1, n); th::algebra::mat_mul(r, g.m(n, k), g.m(k, n)); diag(d, r)),
	B("product into a matrix with other columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); M r = g.m(n, n + 1); th::algebra::mat_mul(r, g.m(n, k), g.m(k, n)); diag(d, r)),
	B("product into a matrix, operands do not match", ARG, int n = g.i(1, 4), k = g.i(1, 4); M r = g.m(n, n); th::algebra::mat_mul(r, g.m(n, k), g.m(k + 1, n)); diag(d, r)),
	B("transposed product, other rows", ARG, int n = g.i(1, 4), k = g.i(1, 4); diag(d, th::algebra::mat_transpose_mul(g.m(n, k), g.m(other1(g, n), k)))),
	B("product with the transposed, other columns", ARG, int n = g.i(1, 4), k = g.i(1, 4); diag(d, th::algebra::mat_mul_transpose(g.m(n, k), g.m(n, other1(g, k))))),
	B("sum of vectors in place, other size", ARG, int n = g.i(1, 5); V v = sized(g, n); th::algebra::vec_sum(v, sized(g, other(g, n))); all(d, v)),
	B("sum of vectors of other sizes into a third", ARG, int n = g.i(1, 5); V v = sized(g, n); th::algebra::vec_sum(v, sized(g, n), sized(g, other(g, n))); all(d, v)),
	B("sum of vectors into a vector of another size", ARG, int n = g.i(1, 5); V v = sized(g, other1(g, n)); th::algebra::vec_sum(v, sized(g, n), sized(g, n)); all(d, v)),
	B("difference of vectors in place, other size", ARG, int n = g.i(1, 5); V v = sized(g, n); th::algebra::vec_diff(v, sized(g, other(g, n))); all(d, v)),
	B("difference of vectors of other sizes into a third", ARG, int n = g.i(1, 5); V v = sized(g, n); th::algebra::vec_diff(v, sized(g, n), sized(g, other(g, n))); all(d, v)),
	B("difference of vectors into a vector of another size", ARG, int n = g.i(1, 5); V v = sized(g, other1(g, n)); th::algebra::vec_diff(v, sized(g, n), sized(g, n)); all(d, v)),
	// decompositions and systems
	B("LU decomposition of a rectangular matrix", ARG, M l, u; th::algebra::decompose_lu(g.m(2, 3), l, u); diag(d, l); diag(d, u)),
	B("LU decomposition in place of a rectangular matrix", ARG, int n = g.i(1, 4); M a = g.m(n, other1(g, n)); th::algebra::decompose_lu_inplace(a); diag(d, a)),
	B("Cholesky decomposition in place of a rectangular matrix", ARG, int n = g.i(1, 4); M a = g.m(n, other1(g, n)); th::algebra::decompose_cholesky_inplace(a); diag(d, a)),
	B("Cholesky decomposition in place of a non symmetric matrix", ARG, int n = g.i(2, 4); M a = g.m(n, n); a(0, 1) = a(1, 0) + 1; th::algebra::decompose_cholesky_inplace(a); diag(d, a)),
	B("lower triangular system, rectangular matrix", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_triangular_lower(g.m(n, n + 1), sized(g, n)))),
	B("lower triangular system, vector of another size", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_triangular_lower(g.m(n, n), sized(g, other1(g, n))))),
	B("upper triangular system, rectangular matrix", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_triangular_upper(g.m(n, n + 1), sized(g, n)))),
	B("upper triangular system, vector of another size", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_triangular_upper(g.m(n, n), sized(g, other1(g, n))))),
	B("singular upper triangular system", DIV, int n = g.i(1, 4), k = g.i(0, n - 1); M a = g.m(n, n); a(k, k) = 0; all(d, th::algebra::solve_triangular_upper(a, sized(g, n)))),
	B("singular lower triangular system of any size", DIV, int n = g.i(1, 4), k = g.i(0, n - 1); M a = g.m(n, n); a(k, k) = 0; all(d, th::algebra::solve_triangular_lower(a, sized(g, n)))),
	B("system in place, rectangular matrix", ARG, int n = g.i(1, 4); V b = sized(g, n); th::algebra::solve_lu_inplace(g.m(n, n + 1), b); all(d, b)),
	B("system in place, vector of another size", ARG, int n = g.i(1, 4); V b = sized(g, other1(g, n)); th::algebra::solve_lu_inplace(g.m(n, n), b); all(d, b)),
	B("system by elimination, rectangular matrix", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_lu(g.m(n, n + 1), sized(g, n)))),
	B("system by elimination, vector of another size", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_lu(g.m(n, n), sized(g, other1(g, n))))),
	B("system by elimination, singular matrix", DIV, int n = g.i(1, 4), k = g.i(0, n - 1); M a = g.m(n, n); for (int i = 0; i < n; ++i) a(i, k) = 0; all(d, th::algebra::solve_lu(a, sized(g, n)))),
	B("system from L and U, rectangular L", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_lu(g.m(n, n + 1), g.m(n, n), sized(g, n)))),
	B("system from L and U, rectangular U", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_lu(g.m(n, n), g.m(n, n + 1), sized(g, n)))),
	B("system from L and U of other sizes", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_lu(g.m(n, n), g.m(n + 1, n + 1), sized(g, n)))),
	B("system from L and U, vector of another size", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_lu(g.m(n, n), g.m(n, n), sized(g, other1(g, n))))),
	B("system from L and U, singular U", DIV, int n = g.i(1, 4), k = g.i(0, n - 1); M u = g.m(n, n); u(k, k) = 0; all(d, th::algebra::solve_lu(g.m(n, n), u, sized(g, n)))),
	B("system from a rectangular Cholesky factor", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_cholesky(g.m(n, n + 1), sized(g, n)))),
	B("system from a Cholesky factor, vector of another size", ARG, int n = g.i(1, 4); all(d, th::algebra::solve_cholesky(g.m(n, n), sized(g, other1(g, n))))),
	B("inverse into a matrix with other rows", ARG, int n = g.i(1, 4); M r = g.m(n + 1, n); th::algebra::inverse(r, g.m(n, n)); diag(d, r)),
	B("inverse into a matrix with other columns", ARG, int n = g.i(1, 4); M r = g.m(n, n + 1); th::algebra::inverse(r, g.m(n, n)); diag(d, r)),
	B("inverse into a matrix, rectangular", ARG, int n = g.i(1, 4); M r = g.m(n, n + 1); th::algebra::inverse(r, g.m(n, n + 1)); diag(d, r)),
	B("inversion in place of a rectangular matrix", ARG, int n = g.i(1, 4); M r = g.m(n, other1(g, n)); th::algebra::invert(r); diag(d, r)),
	B("inversion in place of a singular matrix", IMP, int n = g.i(1, 4), k = g.i(0, n - 1); M a = g.m(n, n); for (int i = 0; i < n; ++i) a(i, k) = 0; th::algebra::invert(a); diag(d, a)),
	// eigenvalues
#define EIG(name, F, x) \
	B(name ", rectangular matrix", ARG, int n = g.i(1, 4); M A = g.m(n, n + 1); V s = sized(g, n), v = s; real l = 1; x(F)), \
	B(name ", vector of another size", ARG, int n = g.i(1, 4); M A = g.m(n, n); V s = sized(g, n + 1), v = s; real l = 1; x(F)), \
	B(name ", too few iterations", CNV, M A = rotating(); A(0, 0) = g.r(0.5, 1); A(1, 1) = -2; A(0, 1) = 0.5; V s = sized(g, 2), v = s; real l = g.r(3, 4); x(F, 1e-14, 1u))
#define XA(F, ...) add(d, F(A, s, ##__VA_ARGS__))
#define XP(F, ...) add(d, F(A, s, v, ##__VA_ARGS__))
#define XV(F, ...) { V r = F(A, l, s, ##__VA_ARGS__); if (r.size()) all(d, r); else add(d, th::nan()); }
#define XR(F, ...) add(d, F(A, l, s, ##__VA_ARGS__))
#define XRP(F, ...) add(d, F(A, l, s, v, ##__VA_ARGS__))
	EIG("power iteration", th::algebra::eigenvalue_power, XA), EIG("power iteration with eigenvector", th::algebra::eigenpair_power, XP),
	EIG("inverse iteration", th::algebra::eigenvalue_inverse, XA), EIG("inverse iteration with eigenvector", th::algebra::eigenpair_inverse, XP), EIG("eigenvector by inverse iteration", th::algebra::eigenvector_inverse, XV),
	EIG("Rayleigh iteration", th::algebra::eigenvalue_rayleigh, XR), EIG("Rayleigh iteration with eigenvector", th::algebra::eigenpair_rayleigh, XRP),
	B("power iteration, eigenvector of another size", ARG, int n = g.i(1, 4); V v = sized(g, other1(g, n)); add(d, th::algebra::eigenpair_power(g.m(n, n), sized(g, n), v))),
	B("power iteration on a rotation", CNV, V s = sized(g, 2); s[0] += 1; add(d, th::algebra::eigenvalue_power(rotating(), s))),
	B("hermitian distance of unequal sizes", ARG, int n = g.i(1, 4); th::cvec a((unsigned) n), b((unsigned) other1(g, n)); for (auto& z : a) z = g.z(); for (auto& z : b) z = g.z(); add(d, th::algebra::hermitian_distance(a, b).a)),
	B("discrete distance of unequal sizes", ARG, V v = sized(g, g.i(1, 6)); add(d, th::algebra::discrete_distance(v, shorter(g, v)))),
	B("hamming distance of unequal sizes", ARG, V v = sized(g, g.i(1, 6)); add(d, th::algebra::hamming_distance(v, shorter(g, v)))),
	// matrices and vectors as objects
	B("static matrix from too few rows", ARG, M3 a = {{1.0, 2.0, 3.0}, {4.0, 5.0, 6.0}}; diag(d, a)),
	B("static matrix from too many rows", ARG, M23 a = {{1.0, 2.0, 3.0}, {4.0, 5.0, 6.0}, {1.0, 2.0, 3.0}}; diag(d, a)),
	B("static matrix from a row of another size", ARG, M23 a = {{1.0, 2.0, 3.0}, {4.0, 5.0}}; diag(d, a)),
	B("matrix from rows of unequal sizes", ARG, M a = {{1.0, 2.0, 3.0}, {4.0, 5.0}}; diag(d, a)),
	B("static matrix over zero", DIV, M3 a((real) 1); a = a / (real) 0; diag(d, a)),
	B("static matrix over zero in place", DIV, M3 a((real) 1); a /= (real) 0; diag(d, a)),
	B("matrix over zero", DIV, M a = g.m(g.i(1, 4), g.i(1, 4)); a = a / (real) 0; diag(d, a)),
	B("matrix over zero in place", DIV, M a = g.m(g.i(1, 4), g.i(1, 4)); a /= (real) 0; diag(d, a)),
	B("static matrix times vector of another size", ARG, M3 a((real) 1); all(d, a.transform(sized(g, other1(g, 3))))),
	B("method transform, vector of another size", ARG, int n = g.i(1, 4), k = g.i(1, 4); all(d, g.m(n, k).transform(sized(g, other1(g, k))))),
	B("method mul of matrices which do not match", ARG, int n = g.i(1, 4), k = g.i(1, 4); diag(d, g.m(n, k).mul(g.m(other1(g, k), n)))),
	B("product of matrices of any unequal sizes", ARG, int n = g.i(1, 4), k = g.i(1, 4); diag(d, g.m(n, k) * g.m(other1(g, k), n))),
	B("static matrix times matrix of another size", ARG, M3 a((real) 1); diag(d, a * g.m(other1(g, 3), 3))),
	B("static matrix method mul, other size", ARG, M3 a((real) 1); diag(d, a.mul(g.m(other1(g, 3), 3)))),
	B2("resizing of a static matrix, other rows", ARG, ARG, ANY_RESULT, M3 a((real) 1); a.resize(other1(g, 3), 3)),
	B2("resizing of a static matrix, other columns", ARG, ARG, ANY_RESULT, M3 a((real) 1); a.resize(3, other1(g, 3))),
	B("static vector from a list of another size", ARG, V3 v({1, g.r(1, 2)}); all(d, v)),
	B("static vector over zero", DIV, V3 v({1, g.r(1, 2), 3}); v /= (real) 0; all(d, v)),
	B("vector over zero", DIV, V v = sized(g, g.i(1, 5)); v /= (real) 0; all(d, v)),
	B("base vector out of range", ARG, int n = g.i(1, 5); all(d, V::euclidean_base(n + g.i(0, 2), n))),
	B("static base vector out of range", ARG, all(d, V3::euclidean_base(3 + g.i(0, 2)))),
	B("sum in place with a vector of any other size", ARG, int n = g.i(1, 4); V v = sized(g, n); v += sized(g, other1(g, n)); all(d, v)),
	B("difference in place with a vector of any other size", ARG, int n = g.i(1, 4); V v = sized(g, n); v -= sized(g, other1(g, n)); all(d, v)),
	// transformations
	B("diagonal matrix, columns of another number", ARG, int n = g.i(1, 4); M a = g.m(n, n + 1); th::algebra::diagonal(a, sized(g, n)); diag(d, a)),
	B("diagonal matrix, rows of another number", ARG, int n = g.i(1, 4); M a = g.m(n + 1, n); th::algebra::diagonal(a, sized(g, n)); diag(d, a)),
	B("translation by a vector of another size", ARG, int n = g.i(2, 5); diag(d, th::algebra::translation<M>(sized(g, other1(g, n - 1)), n, n))),
#define ROT(name, min, ...) \
	B(name ", too few rows", ARG, real w = g.r(-3, 3); unsigned n = (unsigned) g.i(1, min - 1), k = min; M m = __VA_ARGS__; diag(d, m)), \
	B(name ", too few columns", ARG, real w = g.r(-3, 3); unsigned k = (unsigned) g.i(1, min - 1), n = min; M m = __VA_ARGS__; diag(d, m))
	ROT("rotation in the plane", 2, th::algebra::rotation_2d<M>(w, n, k)), ROT("rotation in space", 3, th::algebra::rotation_3d<M>(w, V3({1, 0, 0}), n, k)), ROT("rotation around x", 3, th::algebra::rotation_3d_xaxis<M>(w, n, k)),
	ROT("rotation around y", 3, th::algebra::rotation_3d_yaxis<M>(w, n, k)), ROT("rotation around z", 3, th::algebra::rotation_3d_zaxis<M>(w, n, k)),
	ROT("perspective", 4, th::algebra::perspective<M>(-1, 1, -1, 1, 1, 9, n, k)), ROT("perspective by field of view", 4, th::algebra::perspective_fov<M>(1, 1, 1, 9, n, k)), ROT("orthographic projection", 4, th::algebra::ortho<M>(-1, 1, -1, 1, 1, 9, n, k)),
	B("rotation in space around an axis of another size", ARG, V ax = sized(g, g.i(1, 2)); diag(d, th::algebra::rotation_3d<M>(1, ax, 3, 3))),
	B("symplectic matrix of odd order", ARG, unsigned n = (unsigned) (2 * g.i(0, 3) + 1); diag(d, th::algebra::symplectic<M>(n, n))),
	B("symplectic matrix, rectangular", ARG, unsigned n = (unsigned) (2 * g.i(1, 3)); diag(d, th::algebra::symplectic<M>(n, n + 2))),
	// complex numbers
	B("inversion of the complex zero in place", DIV, th::complex<> z(0, 0); z.invert(); add(d, z)), B("complex number over zero", DIV, add(d, g.z() / (real) 0)), B("complex number over zero in place", DIV, auto z = g.z(); z /= (real) 0; add(d, z)),
	B("inversion of a null phasor in place", DIV, th::phasor<> z(0, 1); z.invert(); add(d, z.modulus); add(d, z.phase)), B("phasor over a null phasor in place", DIV, th::phasor<> z(2, 1); z /= th::phasor<>(0, 1); add(d, z.modulus); add(d, z.phase)),
	B("inversion of the null quaternion in place", DIV, th::quat<> q(0, 0, 0, 0); q.invert(); add(d, q.a)), B("quaternion over zero in place", DIV, th::quat<> q(1, 2, 3, 4); q /= (real) 0; add(d, q.a)),
	B("quaternion over the null quaternion", DIV, auto q = th::quat<>(1, g.r(1, 2), 3, 4) / th::quat<>(0, 0, 0, 0); add(d, q.a)), B("quaternion over the null quaternion in place", DIV, th::quat<> q(1, g.r(1, 2), 3, 4); q /= th::quat<>(0, 0, 0, 0); add(d, q.a)),
	B("transformation by a quaternion of a vector of another size", ARG, all(d, th::quat<>(1, 2, 3, 4).transform(sized(g, other1(g, 3))))),
	B("rotation by a quaternion of a vector of another size", ARG, V ax = sized(g, 3); all(d, th::quat<>::rotate(sized(g, other1(g, 3)), g.r(-3, 3), ax))),
	B("rotation by a quaternion around an axis of another size", ARG, V ax = sized(g, other1(g, 3)); all(d, th::quat<>::rotate(sized(g, 3), g.r(-3, 3), ax))),
	// automatic differentiation
	B("curl of a field not in space", ARG, all(d, th::autodiff::curl(fieldn, sized(g, other1(g, 3))))),
	B("dual number over zero in place", DIV, th::dual x(g.r(1, 2), 1); x /= (real) 0; add(d, x)), B("inverse of a null dual number", DIV, add(d, th::dual(0, g.r(-2, 2)).inverse())),
	B("inverse of a null second order dual number", DIV, auto x = th::dual2(0, g.r(-2, 2), 1).inverse(); add2(d, x); add(d, x.Dual2())), B("second order dual number over zero", DIV, auto x = th::dual2(g.r(1, 2), 1, 3) / (real) 0; add2(d, x); add(d, x.Dual2())),
	B("second order dual number over zero in place", DIV, th::dual2 x(g.r(1, 2), 1, 3); x /= (real) 0; add2(d, x); add(d, x.Dual2())),
	B("inverse of a null multidual number", DIV, addm(d, md(0).inverse())), B("multidual number over a null one", DIV, addm(d, md(g.r(1, 2)) / md(0))), B("multidual number over zero in place", DIV, MD x = md(g.r(1, 2)); x /= (real) 0; addm(d, x)),
#define DUALS(name, c, e, k, F, expr) \
	{name " of a dual number", c, e, k, [](R& g) -> D { D d; real x = expr; add(d, th::F(th::dual(x, 1))); return d; }}, {name " of a second order dual number", c, e, k, [](R& g) -> D { D d; real x = expr; add2(d, th::F(th::dual2(x, 1, 0))); return d; }}, {name " of a multidual number", c, e, k, [](R& g) -> D { D d; real x = expr; addm(d, th::F(md(x))); return d; }}
	DUALS("derivative at 0 of the square root", DIV, DIV, NAN_RESULT, sqrt, 0 * g.r(0, 1)), DUALS("cotangent at 0", DIV, DIV, NAN_RESULT, cot, 0 * g.r(0, 1)),
	DUALS("logarithm of a negative value", DOM, DOM, NAN_RESULT, ln, -g.r(0.1, 9)), DUALS("binary logarithm of a negative value", DOM, DOM, NAN_RESULT, log2, -g.r(0.1, 9)), DUALS("decimal logarithm of a negative value", DOM, DOM, NAN_RESULT, log10, -g.r(0.1, 9)),
	DUALS("logarithm of 0", DOM, DOM, NAN_RESULT, ln, 0 * g.r(0, 1)), DUALS("binary logarithm of 0", DOM, DOM, NAN_RESULT, log2, 0 * g.r(0, 1)), DUALS("decimal logarithm of 0", DOM, DOM, NAN_RESULT, log10, 0 * g.r(0, 1)),
	DUALS("arcsine above 1", DOM, DOM, NAN_RESULT, asin, g.r(1, 9)), DUALS("arccosine above 1", DOM, DOM, NAN_RESULT, acos, g.r(1, 9)), DUALS("derivative at 1 of the arcsine", DOM, DOM, NAN_RESULT, asin, 1 + 0 * g.r(0, 1)), DUALS("derivative at 1 of the arccosine", DOM, DOM, NAN_RESULT, acos, 1 + 0 * g.r(0, 1)),
	// polynomials, interpolation
	B2("associated Legendre polynomial of odd order", IMP, IMP, ANY_RESULT, int m = 2 * g.i(0, 2) + 1; th::assoc_legendre_polynomial_even(m + g.i(0, 3), m)),
	B2("polynomial over zero", DIV, DIV, ANY_RESULT, g.p(3) / (real) 0), B2("polynomial over zero in place", DIV, DIV, ANY_RESULT, auto p = g.p(3); p /= (real) 0),
	B("derivative of a polynomial without coefficients", ARG, th::polynomial<real> p; p.coeff.resize(0); add(d, th::deriv(p).coeff[0])),
	B("spherical interpolation from a null vector", IMP, all(d, th::slerp(V2({0, 0}), V2({1, g.r(1, 2)}), g.r(0, 1)))), B("spherical interpolation to a null vector", IMP, all(d, th::slerp(V2({1, g.r(1, 2)}), V2({0, 0}), g.r(0, 1)))),
	B("smootherstep on a null interval", DIV, real a = g.r(-1, 1); add(d, th::smootherstep(a, a, g.r(0, 1)))),
	B("Bezier curve of a single point", ARG, std::vector<V2> p(g.i(0, 1), V2({1, 2})); all(d, th::bezier(p, g.r(0, 1)))), B("Bezier curve before its start", ARG, std::vector<V2> p(3, V2({1, 2})); all(d, th::bezier(p, -g.r(0.001, 1)))), B("Bezier curve after its end", ARG, std::vector<V2> p(3, V2({1, 2})); all(d, th::bezier(p, g.r(1.001, 2)))),
	B("spline through a single point", ARG, std::vector<V2> p(g.i(0, 1), V2({1, 2})); auto n = th::cubic_splines(p); add(d, n[0].a); add(d, n[0].d)), B("spline through too few abscissae", ARG, V x = sized(g, g.i(0, 1)); auto n = th::cubic_splines(x, x); add(d, n[0].a)), B("spline through unequal numbers of coordinates", ARG, V x = sized(g, g.i(2, 5)); auto n = th::cubic_splines(x, shorter(g, x)); add(d, n[0].a)),
	// calculus
	B("improper integral of a function which does not vanish", CNV, add(d, th::integral_inf_riemann(nopos, g.r(-1, 1)))),
	B2("text of an inconsistent solution", ARG, ARG, ANY_RESULT, th::ode::ode_solution s; s.t.resize(3); s.x.resize(2); s.to_string()),
	B("solution backwards in time", ARG, auto f = [](real, const V& x) { return x; }; auto s = th::ode::solve_rk4(f, sized(g, 2), g.r(1, 2), g.r(0, 0.9), (real) 0.1); add(d, s.t[0])),
	// optimisation
	B("maximum by golden section on a reversed interval", ARG, add(d, th::maximize_goldensection(nopos, g.r(1, 2), -g.r(1, 2)))),
	B("Newton's method for a maximum, at a minimum", CNV, add(d, th::maximize_newton(sqr_, dquad, two_, g.r(-1, 1)))), B("Newton's method for a minimum, at a maximum", CNV, add(d, th::minimize_newton(nsqr_, ndquad_, mtwo_, g.r(-1, 1)))),
	B("bisection for a maximum, at a minimum", CNV, add(d, th::maximize_bisection(sqr_, dquad, -g.r(1, 2), g.r(1, 2)))), B("bisection for a minimum, at a maximum", CNV, add(d, th::minimize_bisection(nsqr_, ndquad_, -g.r(1, 2), g.r(1, 2)))),
	B("gradient descent with too few iterations", CNV, all(d, th::multi_minimize_grad<2>(bowl, V2({g.r(1, 2), 1}), -0.001, 1e-10, 1))), B("gradient ascent with a step of the wrong sign", ARG, all(d, th::multi_maximize_grad<2>(cap, V2({g.r(1, 2), 1}), g.r(0, 1)))), B("gradient ascent with too few iterations", CNV, all(d, th::multi_maximize_grad<2>(cap, V2({g.r(1, 2), 1}), -0.001, 1e-10, 1))),
	B("gradient descent along lines with too few iterations", CNV, all(d, th::multi_minimize_lingrad<2>(bowl, V2({g.r(1, 2), 1}), 1e-10, 0))), B("gradient ascent along lines with too few iterations", CNV, all(d, th::multi_maximize_lingrad<2>(cap, V2({g.r(1, 2), 1}), 1e-10, 0))),
	B("root in the plane of a field without one", CNV, all(d, th::multiroot_newton<2>(field2, V2({g.r(1, 2), g.r(1, 2)}), 1e-10, 40))),
	B("bisection with too few iterations", CNV, add(d, th::root_bisect(quad, 0, g.r(2, 3), 1e-12, 5))), B("ITP method on a reversed interval", ARG, add(d, th::root_itp(quad, g.r(2, 3), 0))),
	B("Newton's method by dual numbers, no root", CNV, add(d, th::root_newton(sq1, g.r(0.3, 0.4)))), B("complex Newton's method with too few iterations", CNV, add(d, th::root_newton(zquad, dzquad, th::complex<>(g.r(50, 90), 3), 1e-10, 2))),
	B("Halley's method without a root", CNV, add(d, th::root_halley(nopos, dquad, two_, g.r(0.3, 0.4)))), B("Halley's method by dual numbers, no root", CNV, add(d, th::root_halley(sq2, g.r(0.3, 0.4)))), B("Steffensen's method without a root", CNV, add(d, th::root_steffensen(nopos, g.r(0.3, 0.4)))),
	B("Chebyshev's method without a root", CNV, add(d, th::root_chebyshev(nopos, dquad, two_, g.r(0.3, 0.4)))), B("Chebyshev's method by dual numbers, no root", CNV, add(d, th::root_chebyshev(sq2, g.r(0.3, 0.4)))),
	B("Ostrowski's method without a root", CNV, add(d, th::root_ostrowski(nopos, dquad, g.r(0.3, 0.4)))), B("Jarrat's method without a root", CNV, add(d, th::root_jarrat(nopos, dquad, g.r(0.3, 0.4)))), B("roots in no intervals", DIV, all(d, th::roots(quad, -2, 2, 1e-8, 0))),
	// statistics
#define DIST(name, F, n) B(name " distribution with a wrong number of parameters", ARG, add(d, th::distribution::F(g.r(0.1, 0.9), sized(g, other(g, n)))))
	DIST("Bernoulli", bernoulli, 1), DIST("Poisson", poisson, 1), DIST("binomial", binomial, 2), DIST("chi squared", chi_squared, 1), DIST("beta", beta, 2), DIST("Student", student, 1), DIST("log-normal", log_normal, 2), DIST("exponential", exponential, 1), DIST("Rayleigh", rayleigh, 1), DIST("Cauchy", cauchy, 2), DIST("Breit-Wigner", breit_wigner, 2), DIST("Maxwell", maxwell, 1), DIST("Laplace", laplace, 2), DIST("Pareto", pareto, 2), DIST("Erlang", erlang, 2), DIST("Gaussian", gaussian, 2), DIST("gamma", gamma, 2),
	B("multinomial distribution with unequal numbers", ARG, add(d, th::distribution::multinomial({1, 2, 3}, 6, 3, {0.5, 0.5}))), B("multinomial distribution with another number of classes", ARG, add(d, th::distribution::multinomial({1, 2}, 3, 3, {0.5, 0.5}))),
	B("Rayleigh distribution of null width", DIV, add(d, th::distribution::rayleigh(g.r(0.1, 2), (real) 0))), B("Pareto distribution of negative exponent", DOM, add(d, th::distribution::pareto(g.r(1, 2), 1, -g.r(0, 2)))), B("Erlang distribution of null order", ARG, add(d, th::distribution::erlang(g.r(1, 2), 0u, 1))),
	B("error propagation, covariance with other rows", ARG, add(d, th::stats::error_propagation<2>(bowl, V2({1, 2}), g.m(other1(g, 2), 2)))), B("error propagation, covariance with other columns", ARG, add(d, th::stats::error_propagation<2>(bowl, V2({1, 2}), g.m(2, other1(g, 2))))),
	B("variance of a histogram of a single datum", DIV, th::histogram h(4, 0, 1); if (g.i(0, 1)) h.insert(0.5); add(d, th::stats::variance(h))),
#define UNEQ V x = sized(g, g.i(3, 6)), y = shorter(g, x); real a = 0, b = 0, e = 0, f = 0; th::mat2 c
#define SAME V x(4u, g.r(1, 2)), y = sized(g, 4); real a = 0, b = 0, e = 0, f = 0; th::mat2 c
	B("least squares of unequal sizes", ARG, UNEQ; th::regression::ols_linear(x, y, a, b); add(d, a); add(d, b)), B("least squares with errors, unequal sizes", ARG, UNEQ; th::regression::ols_linear(x, y, (real) 1, a, b, e, f); add(d, a); add(d, b); add(d, e); add(d, f)), B("least squares with errors, single abscissa", DIV, SAME; th::regression::ols_linear(x, y, (real) 1, a, b, e, f); add(d, a); add(d, b); add(d, e); add(d, f)),
	B("least squares with covariance, unequal sizes", ARG, UNEQ; th::regression::ols_linear(x, y, (real) 1, a, b, c); add(d, a); add(d, b); diag(d, c)), B("least squares with covariance, single abscissa", DIV, SAME; th::regression::ols_linear(x, y, (real) 1, a, b, c); add(d, a); add(d, b); diag(d, c)),
	B("weighted least squares of unequal sizes", ARG, UNEQ; th::regression::wls_linear(x, y, x, a, b, c); add(d, a); add(d, b); diag(d, c)), B("weighted least squares, unequal number of weights", ARG, UNEQ; th::regression::wls_linear(x, x, y, a, b, c); add(d, a); add(d, b); diag(d, c)), B("weighted least squares, single abscissa", DIV, SAME; th::regression::wls_linear(x, y, y, a, b, c); add(d, a); add(d, b); diag(d, c)),
	B("least squares with both errors, unequal sizes", ARG, UNEQ; th::regression::wls_linear(x, y, (real) 1, (real) 1, a, b, c); add(d, a); add(d, b); diag(d, c)), B("least squares with both errors, no covariance", DIV, V x({-1, 0, 1}), y({g.r(1, 2), 0, 0}); y[2] = y[0]; real a = 0, b = 0; th::mat2 c; th::regression::wls_linear(x, y, (real) 1, (real) 1, a, b, c); add(d, a); add(d, b); diag(d, c)),
	B("line through the origin of unequal sizes", ARG, UNEQ; th::regression::ols_linear_orig(x, y, (real) 1, a, b); add(d, a); add(d, b)), B("line through the origin of null abscissae", DIV, V x(4u, 0), y = sized(g, 4); real a = 0, b = 0; th::regression::ols_linear_orig(x, y, (real) 1, a, b); add(d, a); add(d, b)),
	B("weighted line through the origin of unequal sizes", ARG, UNEQ; th::regression::wls_linear_orig(x, y, x, a, b); add(d, a); add(d, b)), B("weighted line through the origin, unequal number of weights", ARG, UNEQ; th::regression::wls_linear_orig(x, x, y, a, b); add(d, a); add(d, b)), B("weighted line through the origin of null abscissae", DIV, V x(4u, 0), y = sized(g, 4); real a = 0, b = 0; th::regression::wls_linear_orig(x, y, y, a, b); add(d, a); add(d, b)),
	B("residual error of unequal sizes", ARG, UNEQ; add(d, th::regression::ols_linear_error(x, y, (real) 1, (real) 1))), B("intercept of unequal sizes", ARG, UNEQ; add(d, th::regression::ols_linear_intercept(x, y))), B("slope of unequal sizes", ARG, UNEQ; add(d, th::regression::ols_linear_slope(x, y))),
	B("weighted intercept of unequal sizes", ARG, UNEQ; add(d, th::regression::wls_linear_intercept(x, y, x))), B("weighted intercept, unequal number of weights", ARG, UNEQ; add(d, th::regression::wls_linear_intercept(x, x, y))), B("weighted slope of unequal sizes", ARG, UNEQ; add(d, th::regression::wls_linear_slope(x, y, x))), B("weighted slope, unequal number of weights", ARG, UNEQ; add(d, th::regression::wls_linear_slope(x, x, y))),
#define MODEL(name, pre, ...) B(name, ARG, pre; th::regression::linear_model m; m.fit(x, y, ##__VA_ARGS__); add(d, m.A); add(d, m.B))
#define FEW V x = sized(g, g.i(0, 2)), y = x
	MODEL("model of too few points", FEW), MODEL("model with an error, unequal sizes", UNEQ, (real) 1), MODEL("model with an error, too few points", FEW, (real) 1), MODEL("model with errors, unequal sizes", UNEQ, x), MODEL("model with errors, too few points", FEW, x), MODEL("model with both errors, unequal sizes", UNEQ, (real) 1, (real) 1), MODEL("model with both errors, too few points", FEW, (real) 1, (real) 1),
	B("model with a null error", DIV, V x = sized(g, 4), y = sized(g, 4); th::regression::linear_model m; m.fit(x, y, (real) 0); add(d, m.A); add(d, m.B)),
	B("propagation over a product of unequal sizes", ARG, UNEQ; add(d, th::stats::propagate_product(x, y))), B("propagation over a product with a null mean", DIV, V x = sized(g, 4), y = x; y[g.i(0, 3)] = 0; add(d, th::stats::propagate_product(x, y))),
	B("total sum of squares of no data", ARG, add(d, th::stats::total_sum_squares(V()))), B("mean and variance of too few data", ARG, real m = 0, v = 0; th::stats::moments2(sized(g, 1), m, v); add(d, m); add(d, v)), B("relative error of a null mean", DIV, V x = sized(g, 1); x.resize(2); x[1] = -x[0]; add(d, th::stats::standard_relative_error(x))),
	B("autocorrelation beyond the data", ARG, V x = sized(g, g.i(1, 5)); add(d, th::stats::autocorrelation(x, (unsigned) x.size() + g.i(1, 3)))), B("chi squared of unequal sizes", ARG, UNEQ; add(d, th::stats::chi_square(x, y, x))), B("chi squared, unequal number of errors", ARG, UNEQ; add(d, th::stats::chi_square(x, x, y))), B("chi squared with a null error", DIV, V x = sized(g, 4), y = x; y[g.i(0, 3)] = 0; add(d, th::stats::chi_square(x, x, y))),
	B("p-value without degrees of freedom", ARG, add(d, th::stats::pvalue_chi_squared(g.r(0, 9), 0))), B("chi squared of a line, unequal sizes", ARG, UNEQ; add(d, th::stats::chi_square_linear(x, y, x, (real) 1, (real) 1))), B("chi squared of a line, unequal number of errors", ARG, UNEQ; add(d, th::stats::chi_square_linear(x, x, y, (real) 1, (real) 1))), B("chi squared of a line with a null error", DIV, V x = sized(g, 4), y = x; y[g.i(0, 3)] = 0; add(d, th::stats::chi_square_linear(x, x, y, (real) 1, (real) 1))), B("reduced chi squared of a line, too few data", ARG, V x = sized(g, g.i(0, 2)); add(d, th::stats::reduced_chi_square_linear(x, x, x, (real) 1, (real) 1))),
	// data sets, integers, special functions
	B2("bit reversal of too few elements", ARG, ARG, ANY_RESULT, V x = sized(g, 5); th::swap_bit_reverse(x, (unsigned) g.i(3, 9))), B("product of no data", ARG, add(d, th::product(V()))), B("sum of squared products of unequal sizes", ARG, UNEQ; add(d, th::product_sum_squares(x, y))), B("sum of triple products of unequal sizes", ARG, UNEQ; add(d, th::product_sum(x, x, y))), B("sum of triple products, second size", ARG, UNEQ; add(d, th::product_sum(x, y, x))),
	B("sum of quotients of unequal sizes", ARG, UNEQ; add(d, th::quotient_sum(x, y))), B("sum of quotients by zero", DIV, V x = sized(g, 4), y = x; y[g.i(0, 3)] = 0; add(d, th::quotient_sum(x, y))), B("sum of squares of no data", ARG, add(d, th::sum_squares(V()))), B("map into a data set of another size", ARG, UNEQ; th::map(nopos, x, y); all(d, y)),
	B("maximum of no data", ARG, add(d, th::max(V()))), B("minimum of no data", ARG, add(d, th::min(V()))), B("harmonic mean of no data", DIV, add(d, th::harmonic_mean(V()))), B("quadratic mean of no data", ARG, add(d, th::quadratic_mean(V()))),
	B2("integer logarithm of zero", RNG, RNG, ANY_RESULT, th::ilog2((uint32_t) 0)), B("gamma of the natural number zero", DOM, add(d, th::special::gamma(0u))), B("half-integer gamma of zero", DOM, add(d, th::special::half_gamma(0u))),
	// random numbers
#define ST(n) std::vector<uint64_t> s((size_t) other(g, n), 7); uint64_t r
	B2("congruential generator with a wrong state", ARG, ARG, ANY_RESULT, ST(3) = th::randgen_congruential(1, s); add(d, r)), B2("congruential generator with a multiplier above the modulus", ARG, ARG, ANY_RESULT, std::vector<uint64_t> s = {11, 3, 10}; th::randgen_congruential(1, s)), B2("xoshiro generator with a wrong state", ARG, ARG, ANY_RESULT, ST(4) = th::randgen_xoshiro(1, s); add(d, r)), B2("wyrand generator with a wrong state", ARG, ARG, ANY_RESULT, ST(3) = th::randgen_wyrand(1, s); add(d, r)), B2("middle-square generator with a wrong state", ARG, ARG, ANY_RESULT, ST(1) = th::randgen_middlesquare(1, s); add(d, r)),
#define SMP(name, F, n) B(name " sampling with a wrong number of parameters", ARG, th::PRNG p = th::PRNG::xoshiro(g.u()); std::vector<real> th_((size_t) other(g, n), 1); add(d, th::F(th_, p)))
	SMP("uniform", rand_uniform, 2), SMP("dice", rand_diceroll, 1), SMP("Gaussian", rand_gaussian, 2), SMP("exponential", rand_exponential, 1), SMP("Rayleigh", rand_rayleigh, 1), SMP("Cauchy", rand_cauchy, 2), SMP("Laplace", rand_laplace, 2), SMP("Pareto", rand_pareto, 2),
	B("dice with a negative number of faces", ARG, th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::rand_diceroll(std::vector<real>{-g.r(1, 6)}, p))), B("try and catch sampling of a null density", CNV, th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::rand_trycatch(density, V(), 0, 1, 0, 1, p, 50))), B("rejection sampling of a null density", CNV, th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::rand_rejectsamp(density, V(), never, ident, p, 50))),
};
