// C07: eigensolvers return eigenpairs or report failure
#include "linref.hpp"
#include <random>
using namespace pbt;
namespace alg = th::algebra;

struct Spec { RM a; std::vector<double> ev; RM q; double u = 1; }; // a = q diag(ev) q^T, columns of q are the eigenvectors

// (the tolerance of Rayleigh iteration is on the eigenvalue: no small units there)
// Symmetric matrix with a chosen spectrum, rotated by random plane rotations
static Spec gen_sym(T& t, size_t n, bool small_units) {
	Spec s; s.a = RM(n, n); s.q = RM(n, n);
	for (size_t i = 0; i < n; ++i) s.q(i, i) = 1;
	// moduli separated by at least 30%
	s.u = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(small_units ? -30 : 0, 30)) : 1; t.label_if(s.u < 1e-3, "small eigenvalues"); t.label_if(s.u > 1e3, "large eigenvalues"); double m = s.u * t.r(0.5, 2);
	for (size_t i = 0; i < n; ++i) { s.ev.push_back(t.coin() ? m : -m); m *= t.r(1.5, 2.5); }
	if (t.coin()) std::reverse(s.ev.begin(), s.ev.end());
	size_t rots = t.n(0, 2 * n);
	if (n > 1) for (size_t k = 0; k < rots; ++k) {
		size_t i = t.n(0, n - 1), j = t.n(0, n - 2); if (j >= i) ++j;
		double th_ = t.r(-3, 3), c = std::cos(th_), sn = std::sin(th_);
		for (size_t r = 0; r < n; ++r) { double x = s.q(r, i), y = s.q(r, j); s.q(r, i) = c * x - sn * y; s.q(r, j) = sn * x + c * y; }
	}
	for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) { ld v = 0; for (size_t k = 0; k < n; ++k) v += (ld) s.q(i, k) * s.ev[k] * s.q(j, k); s.a(i, j) = s.a(j, i) = (double) v; }
	return s;
}
// A starting vector with a definite component along every eigenvector
static dvec gen_start(T& t, const Spec& s) {
	size_t n = s.ev.size(); dvec x(n, 0.0);
	for (size_t k = 0; k < n; ++k) { double c = t.r(0.5, 2) * (t.coin() ? 1 : -1); for (size_t r = 0; r < n; ++r) x[r] += c * s.q(r, k); }
	// of any length, often close to one
	double w = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-14, 30)) : 1; if (t.chance(1, 6)) { double p = 0; for (double y : x) p += y * y; w = (1 + t.rlogs(-12, -2)) / std::sqrt(p); t.label("start close to unit length"); }
	for (auto& y : x) y *= w;
	return x;
}
static size_t extreme(const Spec& s, bool largest) {
	size_t b = 0; for (size_t k = 1; k < s.ev.size(); ++k) if ((std::fabs(s.ev[k]) > std::fabs(s.ev[b])) == largest) b = k;
	return b;
}
template<typename V> static void is_pair(T& t, const Spec& s, const V& v, double lambda, double want, const char* m) {
	ld big = 0, nv = 0; for (double e : s.ev) big = std::max(big, (ld) std::fabs(e));
	t.close(lambda, want, 1e-8 * big, m);
	if (v.size() != s.ev.size()) t.fail(std::string(m) + ": eigenvector size");
	for (size_t i = 0; i < s.ev.size(); ++i) nv += (ld) v[i] * v[i];
	t.close(nv, 1, 1e-12, (std::string(m) + ": the eigenvector has unit norm").c_str());
	for (size_t i = 0; i < s.ev.size(); ++i) { ld r = 0; for (size_t j = 0; j < s.ev.size(); ++j) r += (ld) s.a(i, j) * v[j]; t.close(r, (ld) lambda * v[i], 2e-5 * big, (std::string(m) + ": A v = lambda v").c_str()); }
}

LAW(power_iteration, 12000) {
	size_t n = t.sz(1, 5, 12); Spec s = gen_sym(t, n, true); dvec x = gen_start(t, s); size_t k = extreme(s, true);
	t.note("A", s.a); t.note("spectrum", s.ev); NOTE(x); t.nontrivial(n > 1);
	t.label_if(s.ev[k] < 0, "negative dominant eigenvalue");
	th::mat<real> A = dyn(s.a); th::vec<real> X = dynv(x), v(n);
	double l = (double) alg::eigenvalue_power(A, X);
	is_pair(t, s, dynv(dvec(s.ev.size(), 0)).size() ? [&] { th::vec<real> q(n); for (size_t r = 0; r < n; ++r) q[r] = s.q(r, k); return q; }() : v, l, s.ev[k], "eigenvalue_power");
	double p = (double) alg::eigenpair_power(A, X, v); is_pair(t, s, v, p, s.ev[k], "eigenpair_power");
	if (n == 3) { th::vec<real, 3> w; double q = (double) alg::eigenpair_power(sta<3, 3>(s.a), stav<3>(x), w); is_pair(t, s, w, q, s.ev[k], "static eigenpair_power"); }
	vec_is(t, X, std::vector<ld>(x.begin(), x.end()), 0, "the starting vector is unchanged");
}
LAW(inverse_iteration, 12000) {
	size_t n = t.sz(1, 5, 12); Spec s = gen_sym(t, n, true); dvec x = gen_start(t, s); size_t k = extreme(s, false);
	t.note("A", s.a); t.note("spectrum", s.ev); NOTE(x); t.nontrivial(n > 1);
	// plain LU without pivoting is used: leave out matrices with a tiny pivot
	{ RM m = s.a; for (size_t c = 0; c < n; ++c) { if (std::fabs(m(c, c)) < 0.02 * s.u) t.discard(); for (size_t i = c + 1; i < n; ++i) { double f = m(i, c) / m(c, c); for (size_t j = c; j < n; ++j) m(i, j) -= f * m(c, j); } } }
	th::mat<real> A = dyn(s.a); th::vec<real> X = dynv(x), v(n);
	double l = (double) alg::eigenvalue_inverse(A, X); t.close(l, s.ev[k], 1e-8 * s.u, "eigenvalue_inverse");
	double p = (double) alg::eigenpair_inverse(A, X, v); is_pair(t, s, v, p, s.ev[k], "eigenpair_inverse");
}
LAW(shifted_inverse_iteration, 12000) {
	size_t n = t.sz(1, 5, 12); Spec s = gen_sym(t, n, true); dvec x = gen_start(t, s); size_t k = t.n(0, n - 1);
	double lambda = s.ev[k] * (1 + t.r(-0.1, 0.1)); if (std::fabs(lambda - s.ev[k]) < 1e-3 * s.u) lambda = s.ev[k] + 0.01 * s.u;
	t.note("A", s.a); t.note("spectrum", s.ev); NOTE(x); NOTE(lambda); t.nontrivial(n > 1);
	{ RM m = s.a; for (size_t c = 0; c < n; ++c) m(c, c) -= lambda; for (size_t c = 0; c < n; ++c) { if (std::fabs(m(c, c)) < 0.001 * s.u) t.discard(); for (size_t i = c + 1; i < n; ++i) { double f = m(i, c) / m(c, c); for (size_t j = c; j < n; ++j) m(i, j) -= f * m(c, j); } } }
	th::vec<real> v = alg::eigenvector_inverse(dyn(s.a), (real) lambda, dynv(x));
	is_pair(t, s, v, s.ev[k], s.ev[k], "eigenvector_inverse");
}
LAW(rayleigh_iteration, 12000) {
	// converges to some eigenpair, or says that it did not
	size_t n = t.sz(1, 5, 12); Spec s = gen_sym(t, n, false); dvec x = gen_start(t, s); double lambda = s.ev[t.n(0, n - 1)] * t.r(0.8, 1.2) + 0.05 * s.u;
	t.note("A", s.a); t.note("spectrum", s.ev); NOTE(x); NOTE(lambda); t.nontrivial(n > 1);
	th::mat<real> A = dyn(s.a); th::vec<real> X = dynv(x), v(n); int err = 0;
	auto nearest = [&](double l) { double b = s.ev[0]; for (double e : s.ev) if (std::fabs(e - l) < std::fabs(b - l)) b = e; return b; };
	double l = with_errno(err, [&] { return (double) alg::eigenvalue_rayleigh(A, (real) lambda, X); });
	if (std::isnan(l)) { t.check(err != 0, "a failure of eigenvalue_rayleigh is reported"); t.label("no convergence reported"); }
	else t.close(l, nearest(l), 1e-8 * s.u, "eigenvalue_rayleigh returns an eigenvalue");
	double p = with_errno(err, [&] { return (double) alg::eigenpair_rayleigh(A, (real) lambda, X, v); });
	if (std::isnan(p)) { t.check(err != 0, "a failure of eigenpair_rayleigh is reported"); t.label("no convergence reported"); }
	else is_pair(t, s, v, p, nearest(p), "eigenpair_rayleigh");
}
LAW(rayleigh_quotient_bounds, 20000) {
	size_t n = t.sz(1, 5, 12); Spec s = gen_sym(t, n, true); dvec x = gen_start(t, s);
	t.note("A", s.a); NOTE(x); t.nontrivial(n > 1);
	double q = (double) alg::rayleigh_quotient(dyn(s.a), dynv(x));
	ld num = 0, den = 0; for (size_t i = 0; i < n; ++i) { den += (ld) x[i] * x[i]; for (size_t j = 0; j < n; ++j) num += (ld) x[i] * s.a(i, j) * x[j]; }
	t.close(q, num / den, 1e-14 * (n + 2) * n * rm_max(s.a), "rayleigh_quotient");
	double lo = *std::min_element(s.ev.begin(), s.ev.end()), hi = *std::max_element(s.ev.begin(), s.ev.end());
	t.check(q >= lo - 1e-14 * (n + 2) * n * rm_max(s.a) && q <= hi + 1e-14 * (n + 2) * n * rm_max(s.a), "the Rayleigh quotient lies inside the spectrum");
	size_t k = t.n(0, n - 1); th::vec<real> v(n); for (size_t r = 0; r < n; ++r) v[r] = s.q(r, k);
	t.close((double) alg::rayleigh_quotient(dyn(s.a), v), s.ev[k], 1e-14 * (n + 2) * n * rm_max(s.a), "Rayleigh quotient of an eigenvector");
}
LAW(no_convergence_is_reported, 8000) {
	// a rotation has no real eigenvector: power iteration cannot converge
	double a = t.r(0.3, 2.8); NOTE(a); t.nontrivial();
	th::mat<real> R(2, 2); R(0, 0) = std::cos(a); R(0, 1) = -std::sin(a); R(1, 0) = std::sin(a); R(1, 1) = std::cos(a);
	th::vec<real> x(2); x[0] = t.r(0.5, 3); x[1] = t.r(-3, 3); th::vec<real> v(2); int err = 0;
	double l = with_errno(err, [&] { return (double) alg::eigenvalue_power(R, x); });
	t.is_nan(l, "eigenvalue_power of a rotation"); t.eq(errno_name(err), std::string("ERANGE"), "errno after eigenvalue_power of a rotation");
	double p = with_errno(err, [&] { return (double) alg::eigenpair_power(R, x, v); });
	t.is_nan(p, "eigenpair_power of a rotation"); t.eq(errno_name(err), std::string("ERANGE"), "errno after eigenpair_power of a rotation");
}

// Started close to an eigenvector of a full matrix, Rayleigh iteration converges to its eigenvalue in a few steps,
// unless the shifted matrix becomes exactly singular (in one start out of 200 on average), which is reported
LAW(rayleigh_converges, 1000) {
	size_t n = t.n(2, 5); Spec s = gen_sym(t, n, false); for (size_t r = 0; r < 3 * n; ++r) { size_t i = t.n(0, n - 1), j = t.n(0, n - 2); if (j >= i) ++j; double a = t.r(0.2, 1.3), c = std::cos(a), sn = std::sin(a); for (size_t k = 0; k < n; ++k) { double x = s.q(i, k), y = s.q(j, k); s.q(i, k) = c * x - sn * y; s.q(j, k) = sn * x + c * y; } }
	for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) { ld v = 0; for (size_t k = 0; k < n; ++k) v += (ld) s.q(i, k) * s.ev[k] * s.q(j, k); s.a(i, j) = s.a(j, i) = (double) v; }
	size_t k = t.n(0, n - 1); uint64_t seed = t.u64(); t.note("A", s.a); t.note("spectrum", s.ev); NOTE(k); NOTE(seed); t.nontrivial(n > 2); std::mt19937_64 g(seed); std::uniform_real_distribution<double> U(-1, 1); int ok1 = 0, ok2 = 0;
	th::mat<real> A = dyn(s.a);
	for (int trial = 0; trial < 64; ++trial) {
		dvec x(n, 0.0); double c = U(g) < 0 ? -1 : 1; for (size_t r = 0; r < n; ++r) x[r] = c * s.q(r, k); for (size_t m = 0; m < n; ++m) { double e = 0.08 * U(g); for (size_t r = 0; r < n; ++r) x[r] += e * s.q(r, m); } double lambda = s.ev[k] * (1 + 0.05 * U(g)); th::vec<real> X = dynv(x), v(n); int err;
		double l = with_errno(err, [&] { return (double) alg::eigenvalue_rayleigh(A, (real) lambda, X, 1e-8, 7); });
		if (std::isnan(l)) t.check(err != 0, "a failure of eigenvalue_rayleigh is reported"); else { ++ok1; t.close(l, s.ev[k], 1e-10 * s.u, "eigenvalue_rayleigh, from next to an eigenvector"); }
		double p = with_errno(err, [&] { return (double) alg::eigenpair_rayleigh(A, (real) lambda, X, v, 1e-8, 7); });
		if (std::isnan(p)) t.check(err != 0, "a failure of eigenpair_rayleigh is reported"); else { ++ok2; is_pair(t, s, v, p, s.ev[k], "eigenpair_rayleigh, from next to an eigenvector"); }
	}
	NOTE(ok1); NOTE(ok2); t.check(ok1 >= 8, "eigenvalue_rayleigh seldom converges"); t.check(ok2 >= 8, "eigenpair_rayleigh seldom converges"); t.label_if(ok1 < 48 || ok2 < 48, "less than 48 of 64 starts converge"); t.label_if(ok1 < 16 || ok2 < 16, "less than 16 of 64 starts converge");
}
// The asked tolerance is reached, and too few iterations are reported
LAW(tolerance_and_iterations, 12000) {
	size_t n = t.n(2, 5); Spec s = gen_sym(t, n, true); dvec x = gen_start(t, s); double tol = t.rlog(-9, -2); unsigned few = (unsigned) t.n(0, 1); t.note("A", s.a); t.note("spectrum", s.ev); NOTE(x); NOTE(tol); t.nontrivial(); size_t k = extreme(s, true); double big = std::fabs(s.ev[k]);
	th::mat<real> A = dyn(s.a); th::vec<real> X = dynv(x), v(n); int err;
	// after the last step the distance from the eigenvector is at most tol r / (1 - r) with r the ratio of the moduli
	double second = 0; for (size_t i = 0; i < n; ++i) if (i != k) second = std::max(second, std::fabs(s.ev[i])); double r = second / big, d = tol * r / (1 - r) * 1.01 + 1e-12;
	double p = with_errno(err, [&] { return (double) alg::eigenpair_power(A, X, v, tol, 400); }); if (!std::isnan(p)) { t.check(err == 0, "eigenpair_power reports a success"); ld dn = 0, c = 0; for (size_t i = 0; i < n; ++i) c += (ld) v[i] * s.q(i, k); for (size_t i = 0; i < n; ++i) { ld e = v[i] - (c > 0 ? 1 : -1) * s.q(i, k); dn += e * e; } t.check(sqrtl(dn) <= 2 * d, "the eigenvector is not within the tolerance"); t.close(p, s.ev[k], 8 * big * d * d + 1e-11 * big, "the eigenvalue converges quadratically"); } else t.fail("eigenpair_power did not converge");
	double l = with_errno(err, [&] { return (double) alg::eigenvalue_power(A, X, tol, 400); }); if (!std::isnan(l)) t.close(l, s.ev[k], 8 * big * d * d + 1e-11 * big, "the eigenvalue converges quadratically"); else t.fail("eigenvalue_power did not converge");
	double f = with_errno(err, [&] { return (double) alg::eigenpair_power(A, X, v, 1e-13, few); }); t.check(std::isnan(f) ? err == ERANGE : few > 0, "too few iterations are not reported");
	double h = with_errno(err, [&] { return (double) alg::eigenvalue_power(A, X, 1e-13, few); }); t.check(std::isnan(h) ? err == ERANGE : few > 0, "too few iterations are not reported");
}
// Matrices which are not symmetric: A = S diag S^-1
LAW(asymmetric_matrices, 12000) {
	size_t n = t.n(2, 5); RM S(n, n), I(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) S(i, j) = i == j ? 1 : j < i ? t.r(-1, 1) : 0;
	for (size_t c = 0; c < n; ++c) for (size_t i = 0; i < n; ++i) { ld v = i == c ? 1 : 0; for (size_t j = 0; j < i; ++j) v -= (ld) S(i, j) * I(j, c); I(i, c) = (double) v; }
	if (t.coin()) { S = rm_t(S); I = rm_t(I); }
	double u = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-30, 30)) : 1; std::vector<double> ev; double m = u * t.r(0.5, 2); for (size_t i = 0; i < n; ++i) { ev.push_back(t.coin() ? m : -m); m *= t.r(1.6, 2.5); } if (t.coin()) std::reverse(ev.begin(), ev.end());
	RM D(n, n); for (size_t i = 0; i < n; ++i) D(i, i) = ev[i]; RM a = rm_mul(rm_mul(S, D), I); dvec x(n, 0.0); for (size_t k = 0; k < n; ++k) { double c = t.r(0.5, 2) * (t.coin() ? 1 : -1); for (size_t r = 0; r < n; ++r) x[r] += c * S(r, k); }
	double near = t.r(0.92, 1.08); if (std::fabs(near - 1) < 0.01) near = 1.02;
	NOTE(a); t.note("spectrum", ev); NOTE(x); NOTE(near); t.nontrivial(); size_t hi = 0, lo = 0, any = t.n(0, n - 1); for (size_t k = 0; k < n; ++k) { if (std::fabs(ev[k]) > std::fabs(ev[hi])) hi = k; if (std::fabs(ev[k]) < std::fabs(ev[lo])) lo = k; }
	th::mat<real> A = dyn(a); th::vec<real> X = dynv(x), v(n); const double big = std::fabs(ev[hi]);
	auto pair = [&](const th::vec<real>& w, double l, size_t k, const char* msg) { t.close(l, ev[k], 2e-4 * big, msg); ld nv = 0; for (size_t i = 0; i < n; ++i) nv += (ld) w[i] * w[i]; t.close(nv, 1, 1e-12, (std::string(msg) + ": unit norm").c_str()); for (size_t i = 0; i < n; ++i) { ld q = 0; for (size_t j = 0; j < n; ++j) q += (ld) a(i, j) * w[j]; t.close(q, (ld) ev[k] * w[i], 2e-4 * big, (std::string(msg) + ": A v = lambda v").c_str()); } };
	auto pivots = [&](double shift) { RM q = a; for (size_t c = 0; c < n; ++c) q(c, c) -= shift; for (size_t c = 0; c < n; ++c) { if (std::fabs(q(c, c)) < 0.002 * u) return false; for (size_t i = c + 1; i < n; ++i) { double f = q(i, c) / q(c, c); for (size_t j = c; j < n; ++j) q(i, j) -= f * q(c, j); } } return true; };
	double p = (double) alg::eigenpair_power(A, X, v); pair(v, p, hi, "eigenpair_power"); t.close((double) alg::eigenvalue_power(A, X), ev[hi], 2e-4 * big, "eigenvalue_power");
	if (pivots(0)) { p = (double) alg::eigenpair_inverse(A, X, v); pair(v, p, lo, "eigenpair_inverse"); t.close((double) alg::eigenvalue_inverse(A, X), ev[lo], 2e-4 * big, "eigenvalue_inverse"); }
	double sh = ev[any] * near; if (pivots(sh)) { v = alg::eigenvector_inverse(A, (real) sh, X); pair(v, ev[any], any, "eigenvector_inverse"); }
	int err; if (u >= 1) { p = with_errno(err, [&] { return (double) alg::eigenpair_rayleigh(A, (real) sh, X, v); }); if (std::isnan(p)) t.check(err != 0, "a failure of eigenpair_rayleigh is reported"); else { size_t b = 0; for (size_t k = 1; k < n; ++k) if (std::fabs(ev[k] - p) < std::fabs(ev[b] - p)) b = k; pair(v, p, b, "eigenpair_rayleigh"); } }
}

// Close moduli: the iterations are slow, the result is still an eigenpair within the tolerance which was asked
LAW(slow_convergence, 1500) {
	size_t n = t.n(2, 4); double ratio = 1 - t.rlog(-2.3, -1), tol = t.rlog(-8, -6); Spec s; s.a = RM(n, n); s.q = RM(n, n); for (size_t i = 0; i < n; ++i) s.q(i, i) = 1; double m = t.r(0.5, 2); for (size_t i = 0; i < n; ++i) { s.ev.push_back(t.coin() ? m : -m); m /= ratio; } if (t.coin()) std::reverse(s.ev.begin(), s.ev.end());
	for (size_t r = 0; r < 2 * n; ++r) { size_t i = t.n(0, n - 1), j = t.n(0, n - 2); if (j >= i) ++j; double w = t.r(-3, 3), c = std::cos(w), sn = std::sin(w); for (size_t k = 0; k < n; ++k) { double x = s.q(k, i), y = s.q(k, j); s.q(k, i) = c * x - sn * y; s.q(k, j) = sn * x + c * y; } }
	for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) { ld v = 0; for (size_t k = 0; k < n; ++k) v += (ld) s.q(i, k) * s.ev[k] * s.q(j, k); s.a(i, j) = s.a(j, i) = (double) v; }
	dvec x = gen_start(t, s); t.note("A", s.a); t.note("spectrum", s.ev); NOTE(x); NOTE(tol); NOTE(ratio); t.nontrivial(); double big = 0; for (double e : s.ev) big = std::max(big, std::fabs(e)); th::mat<real> A = dyn(s.a); th::vec<real> X = dynv(x), v(n);
	// the residual of unit vectors that differ by at most tol from their image
	auto pair = [&](double l, const th::vec<real>& w, const char* msg) { ld r2 = 0; for (size_t i = 0; i < n; ++i) { ld r = 0; for (size_t j = 0; j < n; ++j) r += (ld) s.a(i, j) * w[j]; r -= (ld) l * w[i]; r2 += r * r; } t.check(sqrtl(r2) <= 4 * big * tol + 1e-13 * big, std::string(msg) + ": the residual is above the tolerance"); };
	auto value = [&](double l, const char* msg) { double d = INFINITY; for (double e : s.ev) d = std::min(d, std::fabs(e - l)); t.check(d <= 4 * big * tol + 1e-13 * big, std::string(msg) + ": the distance from the spectrum is above the tolerance"); };
	double l = (double) alg::eigenpair_power(A, X, v, tol, 20000); if (std::isnan(l)) t.fail("eigenpair_power did not converge"); pair(l, v, "eigenpair_power"); l = (double) alg::eigenvalue_power(A, X, tol, 20000); if (std::isnan(l)) t.fail("eigenvalue_power did not converge"); value(l, "eigenvalue_power");
	RM m2 = s.a; bool ok = true; for (size_t c = 0; c < n && ok; ++c) { if (std::fabs(m2(c, c)) < 0.05) ok = false; else for (size_t i = c + 1; i < n; ++i) { double f = m2(i, c) / m2(c, c); for (size_t j = c; j < n; ++j) m2(i, j) -= f * m2(c, j); } }
	if (ok) { l = (double) alg::eigenpair_inverse(A, X, v, tol, 20000); if (std::isnan(l)) t.fail("eigenpair_inverse did not converge"); pair(l, v, "eigenpair_inverse"); l = (double) alg::eigenvalue_inverse(A, X, tol, 20000); if (std::isnan(l)) t.fail("eigenvalue_inverse did not converge"); value(l, "eigenvalue_inverse"); t.label("inverse iteration"); }
}
// Rayleigh iteration stops at a residual within the tolerance
LAW(rayleigh_residual, 8000) {
	size_t n = t.n(1, 5); Spec s = gen_sym(t, n, false); dvec x = gen_start(t, s); double lambda = s.ev[t.n(0, n - 1)] * t.r(0.6, 1.4) + 0.05 * s.u, tol = t.rlog(-10, -4); t.note("A", s.a); t.note("spectrum", s.ev); NOTE(x); NOTE(lambda); NOTE(tol); t.nontrivial(n > 1); double big = 0; for (double e : s.ev) big = std::max(big, std::fabs(e)); th::mat<real> A = dyn(s.a); th::vec<real> X = dynv(x), v(n); int err;
	const ld bound = tol * std::max(1.0, 4 * big) + 1e-12 * big; double p = with_errno(err, [&] { return (double) alg::eigenpair_rayleigh(A, (real) lambda, X, v, tol, 50); });
	if (!std::isnan(p)) { ld r2 = 0; for (size_t i = 0; i < n; ++i) { ld r = 0; for (size_t j = 0; j < n; ++j) r += (ld) s.a(i, j) * v[j]; r -= (ld) p * v[i]; r2 += r * r; } t.check(sqrtl(r2) <= bound, "eigenpair_rayleigh: the residual is above the tolerance"); } else t.check(err != 0, "a failure is reported");
	double l = with_errno(err, [&] { return (double) alg::eigenvalue_rayleigh(A, (real) lambda, X, tol, 50); }); if (!std::isnan(l)) { double d = INFINITY; for (double e : s.ev) d = std::min(d, std::fabs(e - l)); t.check(d <= bound, "eigenvalue_rayleigh: the distance from the spectrum is above the tolerance"); } else t.check(err != 0, "a failure is reported");
}
