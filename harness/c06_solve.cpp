// C06: linear systems, inverses, determinants and decompositions
#include "linref.hpp"
using namespace pbt;
namespace alg = th::algebra;

// Exact determinant of a small integer matrix (fraction-free elimination)
typedef __int128 i128;
static i128 int_det(std::vector<std::vector<i128>> m) {
	size_t n = m.size(); i128 prev = 1; int sign = 1;
	for (size_t k = 0; k + 1 < n; ++k) {
		if (m[k][k] == 0) { size_t p = k + 1; while (p < n && m[p][k] == 0) ++p; if (p == n) return 0; std::swap(m[k], m[p]); sign = -sign; }
		for (size_t i = k + 1; i < n; ++i) for (size_t j = k + 1; j < n; ++j) m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
		prev = m[k][k];
	}
	return m[n - 1][n - 1] * sign;
}

// Condition estimate: max-norm of A times max-norm of its inverse, in long double with complete row pivoting
static ld cond_of(const RM& a, std::vector<ld>* inv_out = nullptr) {
	size_t n = a.r; std::vector<std::vector<ld>> m(n, std::vector<ld>(2 * n, 0));
	for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) m[i][j] = a(i, j); m[i][n + i] = 1; }
	for (size_t k = 0; k < n; ++k) {
		size_t p = k; for (size_t i = k; i < n; ++i) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i;
		if (!(fabsl(m[p][k]) >= 1e-12L * rm_max(a))) return INFINITY;
		std::swap(m[k], m[p]);
		for (size_t i = 0; i < n; ++i) if (i != k) { ld f = m[i][k] / m[k][k]; for (size_t j = k; j < 2 * n; ++j) m[i][j] -= f * m[k][j]; }
		ld d = m[k][k]; for (size_t j = 0; j < 2 * n; ++j) m[k][j] /= d;
	}
	ld na = 0, ni = 0;
	for (size_t i = 0; i < n; ++i) { ld s = 0, u = 0; for (size_t j = 0; j < n; ++j) { s += std::fabs(a(i, j)); u += fabsl(m[i][n + j]); } na = std::max(na, s); ni = std::max(ni, u); }
	if (inv_out) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) inv_out->push_back(m[i][n + j]);
	return na * ni;
}

// An invertible matrix with a moderate condition number; zero pivots are frequent
static RM gen_invertible(T& t, size_t n, ld* cond = nullptr) {
	RM a(n, n);
	unsigned kind = (unsigned) t.choice(4);
	for (int attempt = 0; attempt < 6; ++attempt) {
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) switch (kind) {
			case 0: a(i, j) = (double) t.i(-4, 4); break;
			case 1: a(i, j) = t.r(-8, 8); break;
			case 2: a(i, j) = t.chance(1, 2) ? 0.0 : t.r(-5, 5); break;
			case 3: a(i, j) = t.r(-1, 1) + (i == j ? (double) n : 0.0); break;
			default: a(i, j) = (double) t.i(-1, 1);
		}
		if (t.chance(1, 3)) a(0, 0) = 0;
		// small elements where a pivot is expected
		if (t.chance(1, 4)) for (size_t i = 0; i < n; ++i) if (t.coin()) { double s = t.rlogs(-18, -4); for (size_t k = 0; k <= i; ++k) if (k == i || t.chance(1, 3)) a(i, k) = s * (k == i ? 1 : t.r(0.2, 3)); t.label("small pivots"); }
		ld c = cond_of(a);
		if (c < 1e5) { if (cond) *cond = c; t.label_if(a(0, 0) == 0, "zero leading element"); const double u = gen_unit(t); t.label_if(u != 1, "unit"); for (auto& x : a.v) x *= u; return a; }
	}
	// fall back on a permuted diagonal
	a = RM(n, n); for (size_t i = 0; i < n; ++i) a(i, (i + 1) % n) = (double) (i + 1);
	if (cond) *cond = cond_of(a);
	t.label("permutation");
	return a;
}

static void residual(T& t, const RM& a, const th::vec<real>& x, const dvec& b, ld cond, const char* m) {
	if (x.size() != a.c) t.fail(std::string(m) + ": wrong size");
	ld mag = 0; for (size_t j = 0; j < a.c; ++j) mag += fabsl((ld) x[j]); mag *= rm_max(a); for (double y : b) mag = std::max(mag, (ld) std::fabs(y)); (void) cond;
	for (size_t i = 0; i < a.r; ++i) {
		ld s = 0;
		for (size_t j = 0; j < a.c; ++j) s += (ld) a(i, j) * x[j];
		t.close(s, b[i], 1e-14L * (a.r + 4) * mag, m);
	}
}

LAW(solve_solves, 30000) {
	size_t n = t.sz(1, 7, 30); ld c = 1; RM a = gen_invertible(t, n, &c); dvec b = t.reals(n, -20, 20); const double ub = gen_unit(t); for (auto& y : b) y *= ub;
	NOTE(a); NOTE(b); t.nontrivial(n > 1);
	th::mat<real> A = dyn(a); th::vec<real> B = dynv(b);
	residual(t, a, alg::solve(A, B), b, c, "A solve(A, b) = b");
	residual(t, a, alg::solve_lu(A, B), b, c, "A solve_lu(A, b) = b");
	mat_is(t, A, a, 0, "the matrix is unchanged"); vec_is(t, B, std::vector<ld>(b.begin(), b.end()), 0, "the vector is unchanged");
	if (n == 3) { auto x = alg::solve(sta<3, 3>(a), stav<3>(b)); th::vec<real> y = x; residual(t, a, y, b, c, "static solve"); }
	// A known solution is recovered
	dvec x0 = t.reals(n, -5, 5), b2(n); for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += (ld) a(i, j) * x0[j]; b2[i] = (double) s; }
	vec_is(t, alg::solve(A, dynv(b2)), std::vector<ld>(x0.begin(), x0.end()), 1e-14L * (n + 2) * (1 + c) * 5, "solve(A, A x) = x");
}

LAW(inverse_inverts, 30000) {
	size_t n = t.sz(1, 6, 20); ld c = 1; RM a = gen_invertible(t, n, &c); NOTE(a); t.nontrivial(n > 1);
	th::mat<real> A = dyn(a), I = alg::inverse(A);
	std::vector<ld> w; cond_of(a, &w); ld top = 0; for (ld x : w) top = std::max(top, fabsl(x));
	RM wi(n, n); for (size_t i = 0; i < w.size(); ++i) wi.v[i] = (double) w[i];
	const ld e = 1e-14L * (n + 2) * (1 + c) * top;
	mat_is(t, I, wi, e, "inverse(A)");
	th::mat<real> D((unsigned) n, (unsigned) n); if (t.coin()) D = dyn(gen_rm(t, n, n)); alg::inverse(D, A); mat_is(t, D, wi, e, "inverse into destination");
	D = A; D.invert(); mat_is(t, D, wi, e, "invert()");
	D = A; alg::invert(D); mat_is(t, D, wi, e, "algebra::invert");
	RM id(n, n); for (size_t i = 0; i < n; ++i) id(i, i) = 1;
	mat_is(t, A * I, id, 1e-14L * (n + 2) * (1 + c), "A A^-1"); mat_is(t, I * A, id, 1e-14L * (n + 2) * (1 + c), "A^-1 A");
	mat_is(t, A, a, 0, "the matrix is unchanged");
	if (n == 2) mat_is(t, alg::inverse(sta<2, 2>(a)), wi, e, "static inverse");
}

LAW(singular_is_reported, 15000) {
	size_t n = t.sz(2, 5, 14); RM a(n, n);
	for (auto& x : a.v) x = (double) t.i(-3, 3);
	// make it exactly singular: a null row or column, or an equal pair of rows
	switch (t.choice(2)) {
	case 0: { size_t r = t.n(0, n - 1); for (size_t j = 0; j < n; ++j) a(r, j) = 0; break; }
	case 1: { size_t r = t.n(0, n - 1); for (size_t i = 0; i < n; ++i) a(i, r) = 0; break; }
	default: for (auto& x : a.v) x = 0;
	}
	NOTE(a); t.nontrivial();
	int err = 0; th::mat<real> A = dyn(a);
	auto I = with_errno(err, [&] { return alg::inverse(A); });
	t.check(th::is_nan(I(0, 0)), "the inverse of a singular matrix is NaN"); t.check(err != 0, "the inverse of a singular matrix is reported");
	t.close((double) alg::det(A), 0, 1e-12, "determinant of a singular matrix");
}

LAW(determinants, 40000) {
	size_t n = t.n(1, 6); RM a(n, n); std::vector<std::vector<i128>> m(n, std::vector<i128>(n));
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { int64_t x = t.chance(1, 4) ? 0 : t.i(-6, 6); a(i, j) = (double) x; m[i][j] = x; }
	if (t.chance(1, 4)) { a(0, 0) = 0; m[0][0] = 0; }
	NOTE(a); ld w = (ld) int_det(m); t.note("determinant", w); t.nontrivial(n > 1 && w != 0);
	t.label_if(w == 0, "singular"); t.label_if(a(0, 0) == 0, "zero leading element");
	ld had = 1; for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += (ld) a(i, j) * a(i, j); had *= sqrtl(s) + 1; }
	t.close((double) alg::det(dyn(a)), w, 1e-13 * had, "det");
	t.close((double) alg::det(dyn(rm_t(a))), w, 1e-13 * had, "det of the transpose");
	if (n == 3) t.close((double) alg::det(sta<3, 3>(a)), w, 1e-13 * had, "static det");
	if (n >= 2) {
		size_t p = t.n(0, n - 1), q = t.n(0, n - 1); RM s = a; for (size_t j = 0; j < n; ++j) std::swap(s(p, j), s(q, j));
		t.close((double) alg::det(dyn(s)), p == q ? w : -w, 1e-13 * had, "exchanging rows changes the sign");
	}
}

// Determinant by elimination in extended precision
static ld ref_det(const RM& a) {
	size_t n = a.r; std::vector<std::vector<ld>> m(n, std::vector<ld>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) m[i][j] = a(i, j);
	ld d = 1;
	for (size_t k = 0; k < n; ++k) {
		size_t p = k; for (size_t i = k; i < n; ++i) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i;
		if (m[p][k] == 0) return 0;
		if (p != k) { std::swap(m[k], m[p]); d = -d; }
		d *= m[k][k]; for (size_t i = k + 1; i < n; ++i) { ld f = m[i][k] / m[k][k]; for (size_t j = k; j < n; ++j) m[i][j] -= f * m[k][j]; }
	}
	return d;
}
LAW(determinants_of_any_matrix, 30000) {
	size_t n = t.sz(1, 8, 16); ld c = 1; RM a = gen_invertible(t, n, &c); ld w = ref_det(a); NOTE(a); t.note("determinant", w); t.nontrivial(n > 1);
	t.approx((double) alg::det(dyn(a)), w, 1e-14L * (n + 2) * (1 + c), 0, "det"); t.approx((double) alg::det(dyn(rm_t(a))), w, 1e-14L * (n + 2) * (1 + c), 0, "det of the transpose");
	if (n == 2) t.approx((double) alg::det(sta<2, 2>(a)), w, 1e-14L * (n + 2) * (1 + c), 0, "static det"); if (n == 4) t.approx((double) alg::det(sta<4, 4>(a)), w, 1e-14L * (n + 2) * (1 + c), 0, "static det()");
	RM b = gen_invertible(t, n, &c); t.note("b", b); ld c2 = cond_of(rm_mul(a, b)); (void) c2; ld wb = ref_det(b); RM p = rm_mul(a, b); ld had = 1; for (size_t i = 0; i < n; ++i) { ld q = 0; for (size_t j = 0; j < n; ++j) q += (ld) p(i, j) * p(i, j); had *= sqrtl(q); }
	if (fabsl(w * wb) < 1e280L && had < 1e280L) t.close((double) alg::det(dyn(p)), w * wb, 1e-13L * (n + 2) * had + 1e-12L * fabsl(w * wb), "det of a product");
	// a multiple of a row added to another one
	if (n >= 2) { size_t i = t.n(0, n - 1), j = t.n(0, n - 2); if (j >= i) ++j; double k = gen_factor(t, 3); RM q = a; for (size_t l = 0; l < n; ++l) q(i, l) += k * q(j, l); ld hq = 1; for (size_t x = 0; x < n; ++x) { ld y = 0; for (size_t l = 0; l < n; ++l) y += (ld) q(x, l) * q(x, l); hq *= sqrtl(y); } t.close((double) alg::det(dyn(q)), ref_det(q), 1e-14L * (n + 2) * n * hq, "det after adding a multiple of a row"); }
}

LAW(lu_decomposition, 30000) {
	// A = L U built from known factors, so that the decomposition exists
	size_t n = t.sz(1, 6, 20); RM l(n, n), u(n, n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		if (j < i) l(i, j) = (double) t.i(-3, 3); else if (i == j) { l(i, j) = 1; u(i, j) = (double) t.i(1, 4) * (t.coin() ? -1 : 1); } else u(i, j) = (double) t.i(-4, 4);
	}
	const double un = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-40, 34)) : 1; for (auto& y : u.v) y *= un; t.label_if(un != 1, "unit");
	RM a = rm_mul(l, u); NOTE(a); t.nontrivial(n > 1);
	th::mat<real> A = dyn(a), L, U;
	bool dirty = t.coin(); if (dirty) { L = dyn(gen_rm(t, n, n)); U = dyn(gen_rm(t, n, n)); t.label("destinations hold old data"); }
	alg::decompose_lu(A, L, U);
	mat_is(t, L, l, 1e-11, "L"); mat_is(t, U, u, 1e-11 * un, "U");
	th::mat<real> P = A; alg::decompose_lu_inplace(P);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t.close((double) P(i, j), j < i ? l(i, j) : u(i, j), j < i ? 1e-11 : 1e-11 * un, "in place LU");
	dvec x = t.reals(n, -4, 4), b(n); for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += (ld) a(i, j) * x[j]; b[i] = (double) s; }
	auto unscaled = [&](RM m) { for (auto& y : m.v) y /= un; return m; };
	const ld e = 1e-13 * (1 + cond_of(unscaled(a))) * 10;
	std::vector<ld> xw(x.begin(), x.end());
	vec_is(t, alg::solve_lu(L, U, dynv(b)), xw, e, "solve_lu(L, U, b)");
	th::vec<real> v = dynv(b); alg::solve_lu_inplace(P, v); vec_is(t, v, xw, e, "solve_lu_inplace");
	// triangular systems
	auto mvv = [&](const RM& m) { dvec y(n); for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += (ld) m(i, j) * x[j]; y[i] = (double) s; } return y; };
	RM lt = l; for (size_t i = 0; i < n; ++i) lt(i, i) = (double) t.i(1, 5) * (t.coin() ? -1 : 1); for (auto& y : lt.v) y *= un;
	const ld el = 1e-13 * (1 + cond_of(unscaled(lt))) * 10, eu = 1e-13 * (1 + cond_of(unscaled(u))) * 10;
	vec_is(t, alg::solve_triangular_lower(dyn(lt), dynv(mvv(lt))), xw, el, "solve_triangular_lower");
	vec_is(t, alg::solve_triangular_upper(dyn(u), dynv(mvv(u))), xw, eu, "solve_triangular_upper");
	vec_is(t, alg::solve_triangular(dyn(lt), dynv(mvv(lt))), xw, el, "solve_triangular (lower)");
	vec_is(t, alg::solve_triangular(dyn(u), dynv(mvv(u))), xw, eu, "solve_triangular (upper)");
	if (n == 3) {
		th::mat<real, 3, 3> SL, SU; alg::decompose_lu(sta<3, 3>(a), SL, SU); mat_is(t, SL, l, 1e-11, "static L"); mat_is(t, SU, u, 1e-11 * un, "static U");
		vec_is(t, alg::solve_triangular_upper(sta<3, 3>(u), stav<3>(mvv(u))), xw, eu, "static solve_triangular_upper");
		vec_is(t, alg::solve_triangular_lower(sta<3, 3>(lt), stav<3>(mvv(lt))), xw, el, "static solve_triangular_lower");
	}
}

LAW(cholesky_decomposition, 30000) {
	size_t n = t.sz(1, 6, 20); RM l(n, n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) l(i, j) = i == j ? t.r(0.5, 4) : t.r(-3, 3);
	RM a = rm_mul(l, rm_t(l)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) a(i, j) = a(j, i);
	ld c = cond_of(a); if (!(c < 1e6)) t.discard();
	const double un = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-11, 17)) : 1; for (auto& y : a.v) y *= un * un; for (auto& y : l.v) y *= un; t.label_if(un != 1, "unit");
	NOTE(a); t.nontrivial(n > 1);
	th::mat<real> A = dyn(a), L = alg::decompose_cholesky(A);
	const ld e = 2e-12 * un * (1 + std::sqrt((double) c));
	mat_is(t, L, l, e, "Cholesky factor");
	mat_is(t, alg::mat_mul_transpose(L, L), a, 1e-14L * (n + 2) * rm_max(a), "L L^T");
	th::mat<real> P = A; alg::decompose_cholesky_inplace(P); mat_is(t, P, l, e, "in place Cholesky factor");
	dvec x = t.reals(n, -4, 4), b(n); for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += (ld) a(i, j) * x[j]; b[i] = (double) s; }
	vec_is(t, alg::solve_cholesky(dyn(l), dynv(b)), std::vector<ld>(x.begin(), x.end()), 1e-13 * (1 + c), "solve_cholesky");
	// an indefinite symmetric matrix is refused
	RM q = a; q(n - 1, n - 1) = -un * un * t.rlog(-3, 0); int err = 0;
	auto R = with_errno(err, [&] { return alg::decompose_cholesky(dyn(q)); });
	t.check(err != 0 && th::is_nan(R(0, 0)), "a matrix which is not positive definite is reported");
	if (n > 1) { RM s = a; s(0, 1) += un * un; auto S = with_errno(err, [&] { return alg::decompose_cholesky(dyn(s)); }); t.check(err != 0 && th::is_nan(S(0, 0)), "an asymmetric matrix is reported"); }
}

LAW(complex_systems, 20000) {
	// diagonally dominant complex matrices
	size_t n = t.sz(1, 4, 14); std::vector<cld> a(n * n), x(n), b(n); th::mat<cplx> A((unsigned) n, (unsigned) n); th::vec<cplx> B(n); const size_t shift = t.coin() ? 0 : t.n(0, n - 1); t.label_if(shift != 0, "dominant off the diagonal"); const double un = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-14, 34)) : 1;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { cld z(t.r(-1, 1), t.r(-1, 1)); if (j == (i + shift) % n) z += cld((t.coin() ? 1 : -1) * (4.0 + n), t.r(-5, 5)); else if (shift && t.chance(1, 3)) z = 0; z *= un; a[i * n + j] = z; A(i, j) = cplx((real) z.real(), (real) z.imag()); }
	for (auto& z : x) z = cld(t.r(-3, 3), t.r(-3, 3));
	for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) b[i] += a[i * n + j] * x[j]; B[i] = cplx((real) b[i].real(), (real) b[i].imag()); }
	t.note("n", n); t.note("B", B); t.nontrivial(n > 1);
	auto cz = [&](cplx z, cld w, ld e, const char* m) { t.close((double) z.a, w.real(), e, m); t.close((double) z.b, w.imag(), e, m); };
	auto S = alg::solve(A, B); for (size_t i = 0; i < n; ++i) cz(S[i], x[i], 1e-10, "complex solve");
	th::mat<cplx> I = alg::inverse(A), P = A * I;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) cz(P(i, j), i == j ? 1 : 0, 1e-12, "complex A A^-1");
	if (shift == 0) { th::mat<cplx> L, U; alg::decompose_lu(A, L, U); th::mat<cplx> Q = L * U;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) cz(Q(i, j), a[i * n + j], 1e-12 * un, "complex L U"); }
	// determinant by elimination in extended precision
	{ auto m = a; cld d = 1; for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::abs(m[i * n + k]) > std::abs(m[p * n + k])) p = i; if (p != k) { for (size_t j = 0; j < n; ++j) std::swap(m[k * n + j], m[p * n + j]); d = -d; } d *= m[k * n + k]; for (size_t i = k + 1; i < n; ++i) { cld f = m[i * n + k] / m[k * n + k]; for (size_t j = k; j < n; ++j) m[i * n + j] -= f * m[k * n + j]; } } cz(alg::det(A), d, 1e-13L * (n + 2) * std::abs(d), "complex det"); }
}

// Rows and columns in different units: the decomposition and the solution follow
LAW(mixed_units, 20000) {
	size_t n = t.sz(1, 6, 16); RM a(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = i == j ? (t.coin() ? 1 : -1) * (n + t.r(0.5, 2)) : t.chance(1, 4) ? 0 : t.r(-1, 1);
	std::vector<int> p(n), q(n); for (auto& x : p) x = (int) t.i(-40, 40); for (auto& x : q) x = (int) t.i(-40, 40); bool rows = t.coin(); if (!rows) for (auto& x : p) x = 0; RM s = a; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) s(i, j) = std::ldexp(a(i, j), p[i] + q[j]);
	dvec x = t.reals(n, -4, 4), b(n); for (size_t i = 0; i < n; ++i) { ld v = 0; for (size_t j = 0; j < n; ++j) v += (ld) a(i, j) * x[j]; b[i] = std::ldexp((double) v, p[i]); }
	NOTE(a); t.note("row exponents", p); t.note("column exponents", q); NOTE(x); t.nontrivial(n > 1); const ld e = 1e-13L * (n + 2);
	// reference elimination on the unscaled matrix
	std::vector<std::vector<ld>> m(n, std::vector<ld>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) m[i][j] = a(i, j);
	for (size_t k = 0; k < n; ++k) for (size_t i = k + 1; i < n; ++i) { ld f = m[i][k] / m[k][k]; for (size_t j = k; j < n; ++j) m[i][j] -= f * m[k][j]; m[i][k] = f; }
	th::mat<real> A = dyn(s), L, U, P = A; alg::decompose_lu(A, L, U); alg::decompose_lu_inplace(P);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		ld l = j < i ? ldexpl(m[i][j], p[i] - p[j]) : i == j ? 1 : 0, u = j >= i ? ldexpl(m[i][j], p[i] + q[j]) : 0; const ld el = ldexpl(e, p[i] - p[j]), eu = ldexpl(e * n, p[i] + q[j]);
		t.close((double) L(i, j), l, j < i ? el : 0, "L"); t.close((double) U(i, j), u, eu, "U"); t.close((double) P(i, j), j < i ? l : u, j < i ? el : eu, "in place LU");
	}
	auto sol = [&](const th::vec<real>& y, const char* msg) { if (y.size() != n) t.fail(std::string(msg) + ": size"); for (size_t j = 0; j < n; ++j) t.close((double) std::ldexp((double) y[j], q[j]), x[j], 1e-13L * (n + 2) * 4, msg); };
	th::vec<real> v = dynv(b); alg::solve_lu_inplace(P, v); sol(v, "solve_lu_inplace");
	if (!rows) { sol(alg::solve_lu(A, dynv(b)), "solve_lu(A, b)"); sol(alg::solve(A, dynv(b)), "solve"); ld d = 1; int ex = 0; for (size_t i = 0; i < n; ++i) { d *= m[i][i]; ex += p[i] + q[i]; } t.approx((double) alg::det(A), ldexpl(d, ex), 1e-13L * (n + 2), 0, "det");
	std::vector<ld> w; cond_of(a, &w); th::mat<real> I = alg::inverse(A); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t.close((double) I(i, j), ldexpl(w[i * n + j], -q[i]), ldexpl(1e-13L * (n + 2), -q[i]), "inverse"); }
}
// A positive semidefinite matrix of integers which is exactly singular has no Cholesky factor
LAW(semidefinite_is_refused, 10000) {
	size_t n = t.n(1, 6), z = t.n(0, n - 1); RM l(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) l(i, j) = j == z ? 0 : i == j ? (double) (1 << t.i(0, 2)) : (double) t.i(-3, 3);
	RM a = rm_mul(l, rm_t(l)); NOTE(a); NOTE(z); t.nontrivial(n > 1); int err = 0; auto R = with_errno(err, [&] { return alg::decompose_cholesky(dyn(a)); }); t.check(err != 0 && th::is_nan(R(0, 0)), "a singular matrix has no Cholesky factor");
}
// A zero on the diagonal of a triangular matrix is reported, wherever it is
LAW(zero_diagonal_is_reported, 15000) {
	size_t n = t.sz(1, 6, 20), z = t.n(0, n - 1); RM l(n, n), u(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { l(i, j) = t.rnz(-3, 3); u(j, i) = t.rnz(-3, 3); } RM lz = l, uz = u, one = l; lz(z, z) = 0; uz(z, z) = 0; for (size_t i = 0; i < n; ++i) one(i, i) = 1; dvec b = t.reals(n, -5, 5); NOTE(n); NOTE(z); NOTE(b); t.nontrivial(n > 1); int err = 0;
	auto bad = [&](const th::vec<real>& v, const char* m) { t.check(err != 0, (std::string(m) + ": a zero on the diagonal is reported").c_str()); bool nan = v.size() > 0; for (size_t i = 0; i < v.size(); ++i) nan = nan && th::is_nan(v[i]); t.check(nan, (std::string(m) + ": the result is NaN").c_str()); };
	bad(with_errno(err, [&] { return alg::solve_triangular_lower(dyn(lz), dynv(b)); }), "solve_triangular_lower"); bad(with_errno(err, [&] { return alg::solve_triangular_upper(dyn(uz), dynv(b)); }), "solve_triangular_upper");
	bad(with_errno(err, [&] { return alg::solve_triangular(dyn(lz), dynv(b)); }), "solve_triangular, lower"); bad(with_errno(err, [&] { return alg::solve_triangular(dyn(uz), dynv(b)); }), "solve_triangular, upper");
	bad(with_errno(err, [&] { return alg::solve_lu(dyn(one), dyn(uz), dynv(b)); }), "solve_lu(L, U, b)");
}
