// C14: orthogonal polynomial families and Gaussian quadrature
#include "linref.hpp"
using namespace pbt;
typedef th::polynomial<real> P;

// Reference three-term recurrences, evaluated in long double
static ld legendre(unsigned n, ld x) { ld a = 1, b = x; if (!n) return a; for (unsigned k = 2; k <= n; ++k) { ld c = ((2 * k - 1) * x * b - (k - 1) * a) / k; a = b; b = c; } return b; }
static ld laguerre(ld al, unsigned n, ld x) { ld a = 1, b = 1 + al - x; if (!n) return a; for (unsigned k = 2; k <= n; ++k) { ld c = ((2 * k + al - 1 - x) * b - (k + al - 1) * a) / k; a = b; b = c; } return b; }
static ld hermite(unsigned n, ld x) { ld a = 1, b = 2 * x; if (!n) return a; for (unsigned k = 2; k <= n; ++k) { ld c = 2 * x * b - 2 * (ld) (k - 1) * a; a = b; b = c; } return b; }
static ld factl(unsigned n) { return tgammal((ld) n + 1); }
static ld mag(const P& p, ld x) { ld s = 0, w = 1; for (size_t i = 0; i < p.size(); ++i, w *= x) s += fabsl(p.get(i) * w); return s; }

LAW(legendre_family, 20000) {
	unsigned n = (unsigned) t.sz(0, 25, 60); ld x = (real) (t.chance(1, 4) ? gen_factor(t, 3) : t.r(-1, 1)); NOTE(n); NOTE((double) x);
	t.nontrivial(n > 1); t.label_if(n > 10, "high order");
	P p = th::legendre_polynomial(n);
	t.eq(p.find_order(), n, "degree of the Legendre polynomial");
	t.close(p((real) x), legendre(n, x), 1e-13 * mag(p, fabsl(x)), "Legendre polynomial"); for (size_t i = 0; i < p.size(); ++i) if ((n - i) % 2) t.eq((double) p.get(i), 0.0, "parity of the Legendre polynomial");
	t.close(p((real) 1), 1, 1e-13 * (1 + mag(p, 1)), "Legendre polynomial at 1");
	t.approx(th::legendre_polyn_normalization(n), sqrtl((2 * n + 1) / 2.0L), 1e-13, 0, "Legendre normalisation");
}

LAW(chebyshev_families, 20000) {
	unsigned n = (unsigned) t.n(0, 25); ld th0 = t.r(0.01, 3.13); ld x = (real) cosl(th0); th0 = acosl(x); NOTE(n); NOTE((double) x);
	t.nontrivial(n > 1);
	P p = th::chebyshev1_polynomial(n), q = th::chebyshev2_polynomial(n);
	t.close(p((real) x), cosl(n * th0), 1e-13 * (1 + mag(p, x)), "Chebyshev polynomial of the first kind");
	t.close(q((real) x), sinl((n + 1) * th0) / sinl(th0), 1e-13 * (1 + mag(q, x)) + 1e-12, "Chebyshev polynomial of the second kind");
	t.check(p.find_order() == n && q.find_order() == n, "degree of the Chebyshev polynomials");
}

LAW(laguerre_families, 20000) {
	unsigned n = (unsigned) t.sz(0, 14, 40); ld x = (real) (t.chance(1, 4) ? gen_factor(t, 30) : t.r(-2, 12)); real al = t.coin() ? (real) t.i(0, 4) : t.chance(1, 3) ? (real) t.rlog(-9, 2) : (real) t.r(-0.9, 5); NOTE(n); NOTE((double) x); NOTE(al);
	t.nontrivial(n > 1);
	P p = th::laguerre_polynomial(n), q = th::general_laguerre_polynomial(al, n);
	t.close(p((real) x), laguerre(0, n, x), 1e-12 * mag(p, fabsl(x)), "Laguerre polynomial");
	t.close(q((real) x), laguerre(al, n, x), 1e-12 * (mag(q, fabsl(x)) + n + 1), "general Laguerre polynomial");
	P z = th::general_laguerre_polynomial(0, n);
	for (size_t i = 0; i < p.size(); ++i) t.close(z.get(i), p.get(i), 1e-12 * (1 + fabsl(p.get(i))), "general Laguerre polynomial with alpha 0");
}

LAW(hermite_family, 20000) {
	unsigned n = (unsigned) t.sz(0, 20, 60); ld x = (real) (t.chance(1, 4) ? gen_factor(t, 9) : t.r(-4, 4)); NOTE(n); NOTE((double) x);
	t.nontrivial(n > 1); t.label_if(n > 16, "high order");
	P p = th::hermite_polynomial(n);
	t.close(p((real) x), hermite(n, x), 1e-12 * mag(p, fabsl(x)), "Hermite polynomial");
	t.approx(th::hermite_polyn_normalization(n), 1 / sqrtl(powl(2, n) * factl(n) * sqrtl(PIl)), 1e-13, 0, "Hermite normalisation");
}

LAW(associated_legendre, 40000) {
	unsigned l = (unsigned) t.sz(0, 9, 20); int m = (int) t.i(-(int) l, (int) l); ld x = (real) t.r(-0.99, 0.99); NOTE(l); NOTE(m); NOTE((double) x);
	t.nontrivial(l > 0 && m != 0); t.label(m < 0 ? (m % 2 ? "odd negative" : "even negative") : m > 0 ? (m % 2 ? "odd positive" : "even positive") : "zero");
	// P_m^m upwards in degree, with the Condon-Shortley phase
	unsigned k = (unsigned) std::abs(m);
	ld pmm = 1; for (unsigned i = 1; i <= k; ++i) pmm *= -(2.0L * i - 1) * sqrtl(1 - x * x);
	ld a = 0, b = pmm;
	for (unsigned d = k + 1; d <= l; ++d) { ld c = ((2 * d - 1) * x * b - (d + k - 1.0L) * a) / (d - k); a = b; b = c; }
	ld w = b;
	if (m < 0) w *= (k % 2 ? -1 : 1) * factl(l - k) / factl(l + k);
	// the rounding error of the k-th derivative of the Legendre polynomial, evaluated at x
	std::vector<ld> A{1}, B{0, 1}; for (unsigned d = 2; d <= l; ++d) { std::vector<ld> C(d + 1, 0); for (size_t i = 0; i < B.size(); ++i) C[i + 1] += (2.0L * d - 1) / d * B[i]; for (size_t i = 0; i < A.size(); ++i) C[i] -= (d - 1.0L) / d * A[i]; A = B; B = C; } if (!l) B = A;
	ld mg = 0; for (size_t i = k; i < B.size(); ++i) mg += fabsl(B[i]) * factl((unsigned) i) / factl((unsigned) i - k) * powl(fabsl(x), i - k); ld tol = 1e-12L * mg * powl(1 - x * x, k / 2.0L) * (m < 0 ? factl(l - k) / factl(l + k) : 1);
	ld g = th::assoc_legendre_polynomial(l, m)((real) x);
	t.close(g, w, tol, "associated Legendre function");
	if (m % 2 == 0) {
		P e = th::assoc_legendre_polynomial_even(l, m);
		t.close(e((real) x), w, tol * powl((1 + x * x) / (1 - x * x), k / 2.0L), "associated Legendre polynomial of even order");
	}
}

LAW(legendre_nodes, 3000) {
	unsigned n = (unsigned) t.n(0, 20); NOTE(n);
	t.nontrivial(n > 2); t.label_if(n > 5, "above five nodes");
	auto r = th::legendre_roots(n);
	t.eq(r.size(), (size_t) n, "number of roots");
	auto s = r; std::sort(s.begin(), s.end());
	for (size_t i = 0; i < s.size(); ++i) {
		t.check(s[i] > -1 && s[i] < 1, "roots lie inside the interval");
		if (i) t.check(s[i] - s[i - 1] > 1e-4, "roots are distinct: the roots " + std::to_string(i - 1) + " and " + std::to_string(i) + " coincide");
		t.close(legendre(n, s[i]), 0, 1e-8, "value at a root");
		t.close(s[i], -s[s.size() - 1 - i], 1e-9, "roots are symmetric");
	}
	if (!n) return;
	auto w = th::legendre_weights(r); ld sum = 0; for (auto v : w) { t.check(v > 0, "weights are positive"); sum += v; }
	t.close(sum, 2, 1e-9, "sum of the weights");
}

// A polynomial of degree at most d with its coefficients
static std::vector<ld> rnd(T& t, int d) { std::vector<ld> c(d + 1); for (auto& v : c) v = (real) t.r(-2, 2); return c; }
static ld ev(const std::vector<ld>& c, ld x) { ld s = 0; for (size_t i = c.size(); i--;) s = s * x + c[i]; return s; }

LAW(gauss_legendre, 20000) {
	unsigned n = t.coin() ? t.pick(std::vector<unsigned>{2, 4, 8, 16}) : (unsigned) t.n(1, 16);
	int d = (int) t.n(0, std::min(2 * (int) n - 1, 15));
	auto c = rnd(t, d); real a = (real) t.r(-2, 2), b = (real) t.r(-2, 2); NOTE(n); NOTE(d); NOTE(a); NOTE(b);
	t.nontrivial(d > 1 && n > 1); t.label_if(n == 2 || n == 4 || n == 8 || n == 16, "tabulated");
	ld w = 0, sc = 1e-3; ld pa = 1, pb = 1;
	for (int k = 0; k <= d; ++k) { pa *= a; pb *= b; w += c[k] * (pb - pa) / (k + 1); sc += fabsl(c[k]) * (fabsl(pa) + fabsl(pb)) / (k + 1); }
	auto f = [&](real x) { return (real) ev(c, x); };
	t.close(th::integral_legendre(f, a, b, n), w, 1e-10 * sc, "Gauss-Legendre quadrature is exact up to degree 2n - 1");
	auto r = th::legendre_roots(n);
	t.close(th::integral_legendre(f, a, b, r), w, 1e-9 * sc, "Gauss-Legendre quadrature with given nodes");
	auto ws = th::legendre_weights(r);
	t.close(th::integral_legendre(f, a, b, r, ws), w, 1e-9 * sc, "Gauss-Legendre quadrature with given nodes and weights");
	t.close(th::integral_legendre(f, a, b, r.data(), ws.data(), n), w, 1e-9 * sc, "Gauss-Legendre quadrature with arrays");
}

static real* lr(unsigned n) { using namespace th::tables; return n == 2 ? laguerre_roots_2 : n == 4 ? laguerre_roots_4 : n == 8 ? laguerre_roots_8 : laguerre_roots_16; }
static real* lw(unsigned n) { using namespace th::tables; return n == 2 ? laguerre_weights_2 : n == 4 ? laguerre_weights_4 : n == 8 ? laguerre_weights_8 : laguerre_weights_16; }
static real* hr(unsigned n) { using namespace th::tables; return n == 2 ? hermite_roots_2 : n == 4 ? hermite_roots_4 : n == 8 ? hermite_roots_8 : hermite_roots_16; }
static real* hw(unsigned n) { using namespace th::tables; return n == 2 ? hermite_weights_2 : n == 4 ? hermite_weights_4 : n == 8 ? hermite_weights_8 : hermite_weights_16; }

LAW(gauss_laguerre, 20000) {
	unsigned n = t.pick(std::vector<unsigned>{2, 4, 8, 16});
	int d = (int) t.n(0, std::min(2 * (int) n - 1, 17));
	auto c = rnd(t, d); for (int k = 0; k <= d; ++k) c[k] /= factl(k);
	NOTE(n); NOTE(d); t.nontrivial(d > 1);
	ld w = 0, sc = 1e-3; for (int k = 0; k <= d; ++k) { w += c[k] * factl(k); sc += fabsl(c[k]) * factl(k); }
	auto f = [&](real x) { return (real) ev(c, x); };
	std::vector<real> r(lr(n), lr(n) + n), ws(lw(n), lw(n) + n);
	t.close(th::integral_laguerre(f, n), w, 1e-10 * sc, "Gauss-Laguerre quadrature is exact up to degree 2n - 1");
	t.close(th::integral_laguerre(f, r), w, 1e-8 * sc, "Gauss-Laguerre quadrature with given nodes");
	t.close(th::integral_gauss(f, r, ws), w, 1e-10 * sc, "Gaussian quadrature over vectors");
	t.close(th::integral_gauss(f, lr(n), lw(n), n), w, 1e-10 * sc, "Gaussian quadrature over arrays");
	// with the inverse of the weight function the plain integral is computed
	auto g = [&](real x) { return (real) (ev(c, x) * expl(-(ld) x)); };
	t.close(th::integral_gauss(g, lr(n), lw(n), n, [](real x) { return (real) expl(x); }), w, 1e-10 * sc, "Gaussian quadrature with the inverse weight");
	// over an interval: the integral of f times the weight
	real a = (real) t.r(0, 2), b = a + (real) t.r(0, 2); NOTE(a); NOTE(b);
	auto prim = [&](ld x) { // -e^-x sum of the derivatives of f
		ld s = 0; auto q = c; while (!q.empty()) { s += ev(q, x); for (size_t i = 1; i < q.size(); ++i) q[i - 1] = q[i] * i; q.pop_back(); }
		return -expl(-x) * s;
	};
	ld sa = 0; for (int k = 0; k <= d; ++k) sa += fabsl(c[k]) * powl(1 + b, k) * factl(k);
	t.close(th::integral_laguerre(f, a, b, r), prim(b) - prim(a), 1e-9 * (sc + sa), "Gauss-Laguerre quadrature over an interval");
}

LAW(gauss_hermite, 20000) {
	unsigned n = t.pick(std::vector<unsigned>{2, 4, 8, 16});
	int d = (int) t.n(0, std::min(2 * (int) n - 1, 17));
	auto c = rnd(t, d); auto mom = [](int k) { return k % 2 ? 0.0L : tgammal((k + 1) / 2.0L); };
	for (int k = 0; k <= d; ++k) c[k] /= tgammal((k + 1) / 2.0L);
	NOTE(n); NOTE(d); t.nontrivial(d > 1);
	ld w = 0, sc = 1e-3; for (int k = 0; k <= d; ++k) { w += c[k] * mom(k); sc += fabsl(c[k]) * tgammal((k + 1) / 2.0L); }
	auto f = [&](real x) { return (real) ev(c, x); };
	std::vector<real> r(hr(n), hr(n) + n), ws(hw(n), hw(n) + n);
	t.close(th::integral_hermite(f, n), w, 1e-12 * sc, "Gauss-Hermite quadrature is exact up to degree 2n - 1");
	t.close(th::integral_hermite(f, r), w, 1e-10 * sc, "Gauss-Hermite quadrature with given nodes");
	t.close(th::integral_gauss(f, r, ws), w, 1e-10 * sc, "Gaussian quadrature over vectors");
}

LAW(general_recurrence, 5000) {
	// the sequence generator applies any recurrence n - 1 times, in order
	unsigned n = (unsigned) t.n(0, 12); real a = (real) t.i(-3, 3), b = (real) t.i(-3, 3); NOTE(n); NOTE(a); NOTE(b); t.nontrivial(n > 1);
	std::vector<ld> s = {a, b}; for (unsigned k = 2; k <= n; ++k) s.push_back(s[k - 2] - k * s[k - 1]);
	P g = th::gen_polyn_recurr(P(a), P(b), [](P x, P y, unsigned k) { return x - (real) k * y; }, n);
	t.eq(g.size(), (size_t) 1, "size of the generated polynomial"); t.approx(g.get(0), s[n], 1e-12, 1e-12, "generated sequence");
}

// Chebyshev polynomials at any point, through their recurrence; coefficients of all families are those of the definition
LAW(chebyshev_anywhere, 20000) {
	unsigned n = (unsigned) t.sz(0, 25, 70); ld x = gen_factor(t, 4); NOTE(n); NOTE((double) x); t.nontrivial(n > 1); P p = th::chebyshev1_polynomial(n), q = th::chebyshev2_polynomial(n);
	ld a = 1, b = x, c = 1, d = 2 * x; for (unsigned k = 1; k < n; ++k) { ld e = 2 * x * b - a; a = b; b = e; e = 2 * x * d - c; c = d; d = e; } if (!n) b = d = 1; t.close(p((real) x), b, 1e-13L * mag(p, fabsl(x)), "Chebyshev polynomial of the first kind"); t.close(q((real) x), d, 1e-13L * mag(q, fabsl(x)), "Chebyshev polynomial of the second kind"); t.eq(p.size(), (size_t) n + 1, "degree"); t.eq(q.size(), (size_t) n + 1, "degree"); for (size_t i = 0; i <= n; ++i) if ((n - i) % 2) { t.eq((double) p.get(i), 0.0, "parity"); t.eq((double) q.get(i), 0.0, "parity"); }
}

// Quadrature in any unit, over intervals away from zero, sampling only inside the interval
LAW(legendre_units, 20000) {
	unsigned n = t.coin() ? t.pick(std::vector<unsigned>{2, 4, 8, 16}) : (unsigned) t.n(1, 16); real u = std::ldexp(1.0, (int) t.i(-40, 40)), c = std::ldexp(1.0, (int) t.i(-40, 40)), a = (real) t.r(-2, 2) + (t.chance(1, 4) ? 100 : 0), b = t.chance(1, 8) ? a : a + (real) (t.chance(1, 4) ? t.rlogs(-6, -1) : t.r(-2, 2)); ld k = t.r(-1, 1), s = t.r(-3, 3); NOTE(n); NOTE(u); NOTE(c); NOTE(a); NOTE(b); NOTE((double) k); NOTE((double) s); t.nontrivial(a != b);
	real lo = std::min(a, b), hi = std::max(a, b); bool out = false; auto f = [&](real y) { if (y < lo - 1e-12 * (1 + std::fabs(a)) || y > hi + 1e-12 * (1 + std::fabs(a))) out = true; return (real) (expl(k * (y - a)) + s * sinl(y)); }; auto g = [&](real y) { return f(y / u) * c; }; ld sc = 1e-12L * (10 + fabsl(s)) * fabsl((ld) b - a);
	t.close((ld) th::integral_legendre(g, a * u, b * u, n) / u / c, th::integral_legendre(f, a, b, n), sc, "Gauss-Legendre quadrature in other units"); t.check(!out, "quadrature samples the function outside the interval"); t.close(th::integral_legendre(f, b, a, n), -(ld) th::integral_legendre(f, a, b, n), sc, "Gauss-Legendre quadrature with the ends exchanged");
	if (n == 16) t.eq((double) th::integral_legendre(f, a, b), (double) th::integral_legendre(f, a, b, 16), "default number of nodes"); if (n >= 8) { ld w = k == 0 ? (ld) b - a : expm1l(k * ((ld) b - a)) / k; w += s * (cosl(a) - cosl(b)); t.close(th::integral_legendre(f, a, b, n), w, 1e-9L * (1 + fabsl(s)) * fabsl((ld) b - a) + 1e-15L, "smooth functions"); }
	if (t.chance(1, 8)) { auto h = [&](real y) { return (real) expl(-(ld) y * y / 8); }; t.close(th::integral_laguerre(h), th::integral_laguerre(h, 16), 0, "default number of nodes of Laguerre"); t.close(th::integral_hermite(h), th::integral_hermite(h, 16), 0, "default number of nodes of Hermite"); }
}

// The whole range of the parameters
LAW(whole_parameter_range, 5000) {
	unsigned n = (unsigned) t.n(0, 400); NOTE(n); t.nontrivial(n > 60); t.approx(th::legendre_polyn_normalization(n), sqrtl((2 * (ld) n + 1) / 2), 1e-14L, 0, "normalization of Legendre polynomials"); unsigned k = (unsigned) t.n(0, 150); if (k < 140) t.approx(th::hermite_polyn_normalization(k), expl(-0.5L * (k * logl(2) + lgammal((ld) k + 1) + 0.5L * logl(PIl))), 1e-11L, 0, "normalization of Hermite polynomials");
	ld al = (real) (t.coin() ? -1 + t.rlog(-6, 0) : t.r(-1, 60)), x = (real) t.r(0, 12); unsigned m = (unsigned) t.n(0, 16); t.note("alpha", al); t.note("x", x); NOTE(m); P q = th::general_laguerre_polynomial((real) al, m); ld s = mag(q, fabsl(x)); t.close(q((real) x), laguerre(al, m, x), 1e-12L * (s + m + 1) * 4, "general Laguerre polynomial"); t.eq((unsigned) q.find_order(), m, "degree of a general Laguerre polynomial");
	// the value at zero is a binomial coefficient
	ld bin = 1; for (unsigned i = 1; i <= m; ++i) bin *= (al + i) / i; t.approx(q((real) 0), bin, 1e-10L, 1e-12L, "general Laguerre polynomial at zero");
}
// The weight e^-x over a distant interval, to relative accuracy
LAW(laguerre_distant_intervals, 5000) {
	unsigned n = t.coin() ? 8 : 4; real* x = lr(n); std::vector<real> r(x, x + n); ld a = (real) t.r(0, 60), b = (real) (a + t.r(0.5, 5)); int d = (int) t.n(0, 3); auto c = rnd(t, d); if (c[0] < 1) c[0] = 4; t.note("a", a); t.note("b", b); t.nontrivial(a > 30); auto f = [&](real y) { return (real) ev(c, (ld) y); };
	// primitive of p e^-x: -e^-x (p + p' + p'' + ...)
	auto prim = [&](ld y, bool ab) { std::vector<ld> q = c; ld s = 0; while (!q.empty()) { ld v = 0; for (size_t i = q.size(); i--;) v = v * y + (ab ? fabsl(q[i]) : q[i]); s += v; std::vector<ld> e; for (size_t i = 1; i < q.size(); ++i) e.push_back(q[i] * i); q = e; } return s * expl(-y); };
	t.close(th::integral_laguerre(f, (real) a, (real) b, r), prim(a, false) - prim(b, false), 1e-9L * (prim(a, true) + prim(b, true)), "Gauss-Laguerre quadrature over a distant interval");
}
