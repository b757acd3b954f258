// C17: root finding of univariate functions
#include "jets.hpp"
#include <complex>
using namespace pbt;
typedef std::vector<ld> L;
typedef std::complex<ld> C;
static ld ev(const L& c, ld x) { ld s = 0; for (size_t i = c.size(); i--;) s = s * x + c[i]; return s; }
static L der(const L& c) { L d; for (size_t i = 1; i < c.size(); ++i) d.push_back(c[i] * i); if (d.empty()) d.push_back(0); return d; }
static L from(const std::vector<ld>& r) { L p{1}; for (ld x : r) { L q(p.size() + 1, 0); for (size_t i = 0; i < p.size(); ++i) { q[i + 1] += p[i]; q[i] -= x * p[i]; } p = q; } return p; }
static std::string str(const L& c) { std::string s; for (ld v : c) s += show((double) v) + " "; return s; }

// ------------------------------------------------------------ bracketing

// A function with exactly one sign change, at r: smooth, steep, flat, broken or discontinuous
static ld shape(int k, ld u, ld p) {
	switch (k) {
	case 0: return u; case 1: return u * u * u; case 2: return expm1l(p * u); case 3: return atanl(20 * p * u);
	case 4: return u < 0 ? u : p * u; case 5: return u < 0 ? -1 : u > 0 ? p : 0; case 6: return cbrtl(u); default: return u * (1 + 0.9L * sinl(9 * u));
	}
}
LAW(bracketed_roots, 80000) {
	int k = (int) t.i(0, 7); ld p = t.r(0.3, 3), sg = t.coin() ? 1 : -1, r = t.chance(1, 5) ? (ld) t.i(-3, 3) : (ld) (real) t.r(-5, 5);
	real a = (real) (r - (t.chance(1, 4) ? t.rlog(-11, -2) : t.r(0.01, 8))), b = (real) (r + (t.chance(1, 4) ? t.rlog(-11, -2) : t.r(0.01, 8))), tol = t.coin() ? th::OPTIMIZATION_TOL : (real) t.rlog(-11, -2);
	NOTE(k); NOTE((double) p); NOTE((double) sg); NOTE((double) r); NOTE(a); NOTE(b); NOTE(tol);
	// the root may be the middle of the interval, or of one of its halves
	if (t.chance(1, 6)) { const real w = t.r(0.01, 4); a = (real) r - w; b = (real) r + (t.coin() ? 1 : 3) * w; NOTE(a); NOTE(b); }
	if (!(a < r && r < b)) t.discard();
	t.nontrivial(b - a > 2 * tol); t.label_if(b - a <= 2 * tol, "already within the tolerance"); t.label_if(sg < 0, "decreasing"); t.label_if(k == 5, "discontinuous");
	bool out = false; auto f = [&](real x) { if (x < a || x > b) out = true; return (real) (sg * shape(k, (ld) x - r, p)); };
	if (!((ld) f(a) * f(b) < 0) || f(a) * f(b) == 0) t.discard();
	int err; const ld e = 2.0L * tol + 1e-14L * (1 + fabsl(r));
	double x = with_errno(err, [&] { return (double) th::root_bisect(f, a, b, tol); });
	t.close(x, r, e, "root by bisection"); t.check(err == 0, "a bracketed root reported an error by bisection"); t.check(!out, "bisection left the interval");
	x = with_errno(err, [&] { return (double) th::root_itp(f, a, b, tol); });
	t.close(x, r, e, "root by the ITP method"); t.check(err == 0, "a bracketed root reported an error by the ITP method"); t.check(!out, "the ITP method left the interval");
	unsigned n0 = (unsigned) t.n(0, 3); real k1 = (real) (t.r(0.01, 0.3) / (b - a)); NOTE(n0); NOTE(k1);
	x = with_errno(err, [&] { return (double) th::root_itp(f, a, b, tol, n0, k1); });
	t.close(x, r, e, "root by the ITP method with given parameters"); t.check(err == 0, "a bracketed root reported an error by the ITP method");
}

LAW(invalid_brackets, 10000) {
	real a = (real) t.r(-5, 5), b = (real) t.r(-5, 5), c = (real) t.rnz(0.1, 3); bool swap = t.coin(); NOTE(a); NOTE(b); NOTE(c); NOTE(swap); t.nontrivial();
	auto f = [&](real x) { return swap ? c * (x - (a + b) / 2) : c * (1 + x * x); };
	if (swap) { if (a == b) t.discard(); if (a < b) std::swap(a, b); } else if (a > b) std::swap(a, b);
	int err; t.is_nan(with_errno(err, [&] { return (double) th::root_bisect(f, a, b); }), swap ? "bisection with exchanged ends" : "bisection without a sign change"); t.check(err != 0, "an invalid bracket is reported");
	t.is_nan(with_errno(err, [&] { return (double) th::root_itp(f, a, b); }), swap ? "ITP method with exchanged ends" : "ITP method without a sign change"); t.check(err != 0, "an invalid bracket is reported");
	// too few iterations are reported, not returned
	t.is_nan(with_errno(err, [&] { return (double) th::root_bisect([](real x) { return x - 0.3; }, -1.0, 1.0, 1e-9, 5u); }), "bisection with too few iterations"); t.check(err != 0, "missing convergence is reported");
}

// ------------------------------------------------------------ open methods

// A function with a simple root r, from a start close enough for every method to converge
struct Prob { L c; ld r, g, d1, M; };
static Prob gen_prob(T& t) {
	Prob P; int n = (int) t.n(1, 4); std::vector<ld> roots;
	bool ints = t.chance(1, 3);
	for (int i = 0; i < n; ++i) roots.push_back(ints ? (ld) t.i(-4, 4) : (ld) (real) t.r(-4, 4));
	for (int i = 1; i < n; ++i) if (fabsl(roots[i] - roots[0]) < 0.5L) roots[i] = roots[0] + (roots[i] < roots[0] ? -1 : 1);
	ld k = t.coin() ? 1 : (ld) (real) t.rnz(0.2, 2);
	P.c = from(roots); for (auto& v : P.c) v = (real) (v * k);
	// the coefficients are rounded, so the root is polished
	P.r = roots[0]; L d = der(P.c), d2 = der(d); for (int i = 0; i < 4; ++i) P.r -= ev(P.c, P.r) / ev(d, P.r);
	P.d1 = ev(d, P.r);
	// largest distance for which |f''| dist is small with respect to |f'| all around
	ld rad = 0.2L; while (rad > 1e-6L) { ld m2 = 0; for (int i = -4; i <= 4; ++i) m2 = std::max(m2, fabsl(ev(d2, P.r + i * rad / 2))); if (m2 * rad < 0.1L * fabsl(P.d1)) break; rad *= 0.7L; }
	P.M = rad; P.g = t.chance(1, 8) ? P.r : P.r + t.r(-1, 1) * rad;
	return P;
}
static Prob G;
static th::dual fd(th::dual x) { th::dual s = 0; for (size_t i = G.c.size(); i--;) s = s * x + (real) G.c[i]; return s; }
static th::dual2 fd2(th::dual2 x) { th::dual2 s = 0; for (size_t i = G.c.size(); i--;) s = s * x + (real) G.c[i]; return s; }

LAW(open_methods, 80000) {
	G = gen_prob(t); Prob& P = G; L d = der(P.c), d2 = der(d); real g = (real) P.g, tol = t.coin() ? th::OPTIMIZATION_TOL : (real) t.rlog(-12, -3);
	if (fabsl(P.d1) < 0.1L) t.discard();
	t.note("coefficients", str(P.c)); t.note("root", (double) P.r); NOTE(g); NOTE(tol); t.nontrivial(P.c.size() > 2); t.label_if(g == (real) P.r, "start at the root"); t.label_if(P.c.size() == 2, "linear");
	typedef std::function<real(real)> F;
	ld sz = 0; for (size_t i = 0; i < P.c.size(); ++i) sz += fabsl(P.c[i]) * powl(1 + fabsl(P.r), i);
	// rounding in f may prevent it from getting below a very small tolerance
	if (tol < 1e-13 * sz) tol = (real) (1e-13 * sz);
	F f = [&](real x) { return (real) ev(P.c, x); }, Df = [&](real x) { return (real) ev(d, x); }, D2f = [&](real x) { return (real) ev(d2, x); };
	const ld e = 2 * tol / fabsl(P.d1) + 1e-14L * (1 + fabsl(P.r)) + 1e-15 * sz / fabsl(P.d1); int err;
	auto chk = [&](double x, const char* what) { t.close(x, P.r, e, what); t.check(err == 0, std::string(what) + ": an error was reported"); };
	chk(with_errno(err, [&] { return (double) th::root_newton(f, Df, g, tol); }), "Newton's method");
	chk(with_errno(err, [&] { return (double) th::root_newton(fd, g, tol); }), "Newton's method with automatic differentiation");
	chk(with_errno(err, [&] { return (double) th::root_halley(f, Df, D2f, g, tol); }), "Halley's method");
	chk(with_errno(err, [&] { return (double) th::root_halley(fd2, g, tol); }), "Halley's method with automatic differentiation");
	chk(with_errno(err, [&] { return (double) th::root_chebyshev(f, Df, D2f, g, tol); }), "Chebyshev's method");
	chk(with_errno(err, [&] { return (double) th::root_chebyshev(fd2, g, tol); }), "Chebyshev's method with automatic differentiation");
	chk(with_errno(err, [&] { return (double) th::root_ostrowski(f, Df, g, tol); }), "Ostrowski's method");
	chk(with_errno(err, [&] { return (double) th::root_jarrat(f, Df, g, tol); }), "Jarrat's method");
	// Steffensen's method also looks at x + f(x), which has to be close to the root
	ld lim = P.M / (1 + 2 * fabsl(P.d1)); real gs = (real) (P.r + std::max(-lim, std::min(lim, P.g - P.r)));
	chk(with_errno(err, [&] { return (double) th::root_steffensen(f, gs, tol); }), "Steffensen's method");
}

// From a start close to a simple root, a handful of iterations are enough for a method of the given order
LAW(order_of_convergence, 40000) {
	G = gen_prob(t); Prob& P = G; L d = der(P.c), d2 = der(d); real g = (real) P.g; const real tol = (real) 1e-8;
	if (fabsl(P.d1) < 0.1L) t.discard();
	t.note("coefficients", str(P.c)); t.note("root", (double) P.r); NOTE(g); t.nontrivial(P.c.size() > 2 && fabsl(P.g - P.r) > 0.1L * P.M);
	typedef std::function<real(real)> F;
	ld sz = 0; for (size_t i = 0; i < P.c.size(); ++i) sz += fabsl(P.c[i]) * powl(1 + fabsl(P.r), i);
	if (sz > 1e4L) t.discard();
	F f = [&](real x) { return (real) ev(P.c, x); }, Df = [&](real x) { return (real) ev(d, x); }, D2f = [&](real x) { return (real) ev(d2, x); };
	const ld e = 2 * tol / fabsl(P.d1) + 1e-12L * (1 + sz); int err;
	auto chk = [&](double x, const char* what) { t.close(x, P.r, e, what); t.check(err == 0, std::string(what) + ": an error was reported"); };
	chk(with_errno(err, [&] { return (double) th::root_newton(f, Df, g, tol, 5u); }), "Newton's method in few iterations");
	chk(with_errno(err, [&] { return (double) th::root_newton(fd, g, tol, 5u); }), "Newton's method with automatic differentiation in few iterations");
	chk(with_errno(err, [&] { return (double) th::root_halley(f, Df, D2f, g, tol, 4u); }), "Halley's method in few iterations");
	chk(with_errno(err, [&] { return (double) th::root_halley(fd2, g, tol, 4u); }), "Halley's method with automatic differentiation in few iterations");
	chk(with_errno(err, [&] { return (double) th::root_chebyshev(f, Df, D2f, g, tol, 4u); }), "Chebyshev's method in few iterations");
	chk(with_errno(err, [&] { return (double) th::root_chebyshev(fd2, g, tol, 4u); }), "Chebyshev's method with automatic differentiation in few iterations");
	chk(with_errno(err, [&] { return (double) th::root_ostrowski(f, Df, g, tol, 3u); }), "Ostrowski's method in few iterations");
	chk(with_errno(err, [&] { return (double) th::root_jarrat(f, Df, g, tol, 3u); }), "Jarrat's method in few iterations");
	ld lim = P.M / (1 + 2 * fabsl(P.d1)); real gs = (real) (P.r + std::max(-lim, std::min(lim, P.g - P.r)));
	chk(with_errno(err, [&] { return (double) th::root_steffensen(f, gs, tol, 7u); }), "Steffensen's method in few iterations");
}

LAW(complex_newton, 20000) {
	int n = (int) t.n(1, 4); std::vector<C> r; for (int i = 0; i < n; ++i) r.push_back(C((real) t.r(-2, 2), (real) t.r(-2, 2)));
	ld sep = 10; for (int i = 1; i < n; ++i) sep = std::min(sep, std::abs(r[i] - r[0])); if (sep < 0.3L) t.discard();
	C g0 = r[0] + std::polar<ld>(t.chance(1, 8) ? 0 : sep * 0.08L * t.unit(), t.r(0, 6.28));
 th::complex<> g((real) g0.real(), (real) g0.imag());
	t.note("roots", n); t.note("root", show((double) r[0].real()) + " + i " + show((double) r[0].imag())); t.nontrivial(n > 1 && r[0].imag() != 0);
	// the value at the start may be purely real or purely imaginary
	C w = 1; if (t.chance(1, 3)) { C v = 1; for (C q : r) v *= C(g.Re(), g.Im()) - q; if (std::abs(v) > 0) w = std::conj(v) / std::abs(v) * (t.coin() ? C(1, 0) : C(0, 1)); t.label("real or imaginary value at the start"); }
	auto F = [&](C z) { C s = w; for (C q : r) s *= z - q; return s; };
	auto D = [&](C z) { C s = 0; for (int k = 0; k < n; ++k) { C p = w; for (int i = 0; i < n; ++i) if (i != k) p *= z - r[i]; s += p; } return s; };
	typedef std::function<th::complex<>(th::complex<>)> CF;
	CF f = [&](th::complex<> z) { C v = F(C(z.Re(), z.Im())); return th::complex<>((real) v.real(), (real) v.imag()); }, df = [&](th::complex<> z) { C v = D(C(z.Re(), z.Im())); return th::complex<>((real) v.real(), (real) v.imag()); };
	int err; th::complex<> z = with_errno(err, [&] { return th::root_newton(f, df, g); }); ld e = 4e-8 / std::abs(D(r[0])) + 1e-12;
	t.close(z.Re(), r[0].real(), e, "complex Newton's method, real part"); t.close(z.Im(), r[0].imag(), e, "complex Newton's method, imaginary part"); t.check(err == 0, "convergence reported an error");
}

LAW(no_root_is_reported, 20000) {
	// a function bounded away from zero has no root to return
	ld a = t.r(0.2, 3), b = t.r(-3, 3); real g = (real) t.r(-5, 5); NOTE((double) a); NOTE((double) b); NOTE(g); t.nontrivial();
	typedef std::function<real(real)> F;
	F f = [&](real x) { return (real) ((x - b) * (x - b) + a); }, Df = [&](real x) { return (real) (2 * (x - b)); }, D2f = [&](real) { return (real) 2; }; int err;
	t.is_nan(with_errno(err, [&] { return (double) th::root_newton(f, Df, g); }), "Newton's method without a root");
	t.is_nan(with_errno(err, [&] { return (double) th::root_halley(f, Df, D2f, g); }), "Halley's method without a root");
	t.is_nan(with_errno(err, [&] { return (double) th::root_chebyshev(f, Df, D2f, g); }), "Chebyshev's method without a root");
	t.is_nan(with_errno(err, [&] { return (double) th::root_ostrowski(f, Df, g); }), "Ostrowski's method without a root");
	t.is_nan(with_errno(err, [&] { return (double) th::root_jarrat(f, Df, g); }), "Jarrat's method without a root");
	t.is_nan(with_errno(err, [&] { return (double) th::root_steffensen(f, g); }), "Steffensen's method without a root");
}

// ------------------------------------------------------------ all roots

LAW(roots_in_an_interval, 40000) {
	unsigned steps = t.chance(1, 4) ? 10 : (unsigned) t.sz(1, 30, 400); real a = (real) t.i(-6, 2), b = a + (real) t.i(1, 8), tol = t.coin() ? th::OPTIMIZATION_TOL : (real) t.rlog(-10, -4);
	// at most one root in each subinterval, some of them exactly on the grid
	real dx = (b - a) / steps; std::vector<ld> in; size_t want = 0; bool last_grid = false, grid_any = false;
	for (unsigned i = 0; i < steps && in.size() < 6; ++i) {
		if (!t.chance(1, 4)) { last_grid = false; continue; }
		bool grid = t.chance(1, 6); if (last_grid) { last_grid = false; continue; }
		if (!in.empty() && grid && in.back() > a + (i - 1.001L) * dx) grid = false; // one root per closed subinterval
		in.push_back(grid ? (ld) (a + i * dx) : a + (i + 0.1L + 0.8L * t.unit()) * dx); last_grid = grid; grid_any |= grid; ++want;
	}
	// the last point of the grid is part of the interval
	if (t.chance(1, 6) && !last_grid && (in.empty() || in.back() < a + (steps - 1.001L) * dx)) { in.push_back((ld) (a + steps * dx)); grid_any = true; ++want; }
	t.note("roots", str(in)); NOTE(a); NOTE(b); NOTE(steps); NOTE(tol); t.nontrivial(in.size() > 1); t.label_if(grid_any, "root on the grid"); t.label_if(in.empty(), "no roots");
	auto f = [&](real x) { real s = 1; for (ld r : in) s *= x - (real) r; return s; };
	auto iv = th::find_root_intervals(f, a, b, steps); ld e = 1e-12 * (1 + std::max(fabsl(a), fabsl(b)));
	for (ld r : in) { bool ok = false; for (auto& v : iv) if (r >= v[0] - e && r <= v[1] + e) ok = true; t.check(ok, "a sign change is in none of the candidate intervals"); }
	for (auto& v : iv) { bool ok = false; for (ld r : in) if (r >= v[0] - e && r <= v[1] + e) ok = true; t.check(ok, "a candidate interval has no sign change"); t.close((ld) v[1] - v[0], dx, e, "length of a candidate interval"); t.check(v[0] >= a - e && v[1] <= b + e, "candidate intervals lie inside the interval"); }
	auto r = th::roots(f, a, b, tol, (real) steps);
	for (auto x : r) { ld m = 1e9; for (ld y : in) m = std::min(m, fabsl(x - y)); t.check(m <= 2 * tol + e, "returned value " + show((double) x) + " is not a root"); }
	for (ld y : in) { ld m = 1e9; for (auto x : r) m = std::min(m, fabsl(x - y)); t.check(m <= 2 * tol + e, "the root " + show((double) y) + " was not found"); }
	if (!grid_any) t.eq(r.size(), in.size(), "number of roots");
}

LAW(roots_of_polynomials, 20000) {
	int n = (int) t.n(1, 4); std::vector<ld> in; ld at = t.r(-3, -1);
	const ld small = t.chance(1, 3) ? 0.05L : 1; // roots much smaller than one
	for (int i = 0; i < n; ++i) { in.push_back((real) (at * small)); at += t.r(0.5, 1.2); }
	L c = from(in); ld k = t.rnz(0.2, 4); std::vector<real> rc; for (auto v : c) rc.push_back((real) (k * v)); if (t.chance(1, 4)) rc.push_back(0);
	th::polynomial<real> p(rc), keep = p; t.note("roots", str(in)); NOTE((double) k); t.nontrivial(n > 1); t.label_if(rc.back() == 0, "trailing zero");
	ld M = 1, s = 0; for (int i = 0; i < n; ++i) s += fabsl(c[i]); M = std::max(M, s);
	// a root on the very edge of the bound may be lost by rounding
	for (ld y : in) if (fabsl(y) > 0.999L * M) t.discard();
	unsigned steps = (unsigned) (2 * M / (0.21L * small)) + 1;
	auto near = [&](ld x, const std::vector<ld>& v) { ld m = 1e9; for (ld y : v) m = std::min(m, fabsl(x - y)); return m; };
	auto r = th::roots(p, th::OPTIMIZATION_TOL, steps); std::vector<ld> rl(r.begin(), r.end());
	for (ld y : in) t.check(near(y, rl) < 1e-6, "the root " + show((double) y) + " was not found");
	for (ld x : rl) t.check(near(x, in) < 1e-6, "returned value " + show((double) x) + " is not a root");
	auto q = th::roots(p); for (auto x : q) t.check(near(x, in) < 1e-6, "returned value " + show((double) x) + " is not a root");
	t.check(p == keep, "the polynomial is not modified");
}

// ------------------------------------------------------------ units

// The unit of the variable and of the function is arbitrary when the tolerance is given in the same unit
static real UX = 1, UF = 1;
static th::dual gd(th::dual x) { return fd(x / UX) * UF; }
static th::dual2 gd2(th::dual2 x) { return fd2(x / UX) * UF; }
LAW(units, 40000) {
	G = gen_prob(t); Prob& P = G; L d = der(P.c), d2 = der(d); real g = (real) P.g; UX = std::ldexp(1.0, (int) t.i(-50, 50)); UF = std::ldexp(1.0, (int) t.i(-50, 50)); if (fabsl(P.d1) < 0.1L) t.discard();
	ld sz = 0; for (size_t i = 0; i < P.c.size(); ++i) sz += fabsl(P.c[i]) * powl(1 + fabsl(P.r), i); real tol = (real) std::max<ld>(t.rlog(-11, -3), 1e-13L * sz); t.note("coefficients", str(P.c)); t.note("root", (double) P.r); NOTE(g); NOTE(tol); NOTE(UX); NOTE(UF); t.nontrivial(P.c.size() > 2);
	const real u = UX, c = UF, T_ = tol * c; typedef std::function<real(real)> F; F f = [&](real x) { return (real) ev(P.c, x / u) * c; }, Df = [&](real x) { return (real) ev(d, x / u) * (c / u); }, D2f = [&](real x) { return (real) ev(d2, x / u) * (c / u / u); }; const ld e = 2 * tol / fabsl(P.d1) + 1e-14L * (1 + fabsl(P.r)) + 1e-15L * sz / fabsl(P.d1); int err;
	auto chk = [&](double x, const char* what) { t.close((ld) x / u, P.r, e, std::string(what) + " in other units"); t.check(err == 0, std::string(what) + ": an error was reported in other units"); }; const real G0 = g * u;
	chk(with_errno(err, [&] { return (double) th::root_newton(f, Df, G0, T_); }), "Newton's method"); chk(with_errno(err, [&] { return (double) th::root_newton(gd, G0, T_); }), "Newton's method with automatic differentiation"); chk(with_errno(err, [&] { return (double) th::root_halley(f, Df, D2f, G0, T_); }), "Halley's method"); chk(with_errno(err, [&] { return (double) th::root_halley(gd2, G0, T_); }), "Halley's method with automatic differentiation"); chk(with_errno(err, [&] { return (double) th::root_chebyshev(f, Df, D2f, G0, T_); }), "Chebyshev's method"); chk(with_errno(err, [&] { return (double) th::root_chebyshev(gd2, G0, T_); }), "Chebyshev's method with automatic differentiation"); chk(with_errno(err, [&] { return (double) th::root_ostrowski(f, Df, G0, T_); }), "Ostrowski's method"); chk(with_errno(err, [&] { return (double) th::root_jarrat(f, Df, G0, T_); }), "Jarrat's method");
	ld lim = P.M / (1 + 2 * fabsl(P.d1)); real gs = (real) (P.r + std::max(-lim, std::min(lim, P.g - P.r))) * u; F fs = [&](real x) { return (real) ev(P.c, x / u) * u; }; chk(with_errno(err, [&] { return (double) th::root_steffensen(fs, gs, tol * u); }), "Steffensen's method");
	// brackets
	real a = (real) (P.r - 0.45L * t.unit() - 0.01L), b = (real) (P.r + 0.45L * t.unit() + 0.01L), tb = (real) t.rlog(-10, -2); NOTE(a); NOTE(b); NOTE(tb); auto fb = [&](real x) { return (real) ev(P.c, x / u) * c; }; if (!(((ld) fb(a * u) < 0) != ((ld) fb(b * u) < 0))) t.discard(); const ld eb = 2.0L * tb + 1e-13L * (1 + fabsl(P.r)) * sz / fabsl(P.d1); auto cb = [&](double x, const char* what) { t.close((ld) x / u, P.r, eb, std::string(what) + " in other units"); t.check(err == 0, std::string(what) + ": an error was reported in other units"); };
	cb(with_errno(err, [&] { return (double) th::root_bisect(fb, a * u, b * u, tb * u); }), "bisection"); cb(with_errno(err, [&] { return (double) th::root_itp(fb, a * u, b * u, tb * u); }), "ITP method");
	unsigned n = (unsigned) t.n(1, 12); NOTE(n); auto rs = th::roots(fb, a * u, b * u, tb * u, (real) n); t.eq(rs.size(), (size_t) 1, "number of roots in other units"); t.close((ld) rs[0] / u, P.r, eb, "roots in other units");
}

// Roots of polynomials far from the origin, and of multiples of a polynomial
LAW(polynomials_in_other_units, 6000) {
	int n = (int) t.n(1, 3); std::vector<ld> in; ld at = t.r(-3, -1); const ld big = t.rlog(0, 4); for (int i = 0; i < n; ++i) { in.push_back((real) (at * big)); at += t.r(0.9, 1.6); }
	L c = from(in); real k = std::ldexp((real) 1, (int) t.i(-26, 60)); std::vector<real> rc; for (auto v : c) rc.push_back((real) v * k); th::polynomial<real> p(rc); t.note("roots", str(in)); NOTE(k); NOTE((double) big); t.nontrivial(n > 1 && big > 30); t.label_if(k < 1e-6, "small coefficients");
	ld M = 1, s = 0; for (int i = 0; i < n; ++i) s += fabsl(c[i]); M = std::max(M, s); for (ld y : in) if (fabsl(y) > 0.99L * M) t.discard(); ld need = 2 * M / (0.4L * big); unsigned steps = need < 4000 ? (unsigned) need + 1 : 0; ld e = 1e-6L + 1e-12L * M;
	auto near = [&](ld x, const std::vector<ld>& v) { ld m = 1e30L; for (ld y : v) m = std::min(m, fabsl(x - y)); return m; };
	auto r = th::roots(p, th::OPTIMIZATION_TOL * (real) std::max<ld>(1, M / 1e4), steps); std::vector<ld> rl(r.begin(), r.end()); e += 4 * th::OPTIMIZATION_TOL * std::max<ld>(1, M / 1e4); if (steps) for (ld y : in) t.check(near(y, rl) < e, "the root " + show((double) y) + " was not found"); for (ld x : rl) t.check(near(x, in) < e, "returned value " + show((double) x) + " is not a root");
	// an odd degree changes sign between the bounds: at least one root is found
	if (n % 2) t.check(!rl.empty(), "no root of a polynomial of odd degree");
}
// Complex roots: the unit of the function and of the variable, with the tolerance in the same unit
LAW(complex_units, 10000) {
	C r0((real) t.r(-2, 2), (real) t.r(-2, 2)), r1 = r0 + std::polar<ld>(t.r(0.5, 2), t.r(0, 6.28)); C g0 = r0 + std::polar<ld>(0.05L * t.unit(), t.r(0, 6.28)); ld u = ldexpl(1, (int) t.i(-10, 10)), c = ldexpl(1, (int) t.i(-10, 30)); if (c / u < 1e-6L) t.discard(); real tol = (real) (t.rlog(-10, -3) * c); NOTE((double) u); NOTE((double) c); NOTE(tol); t.note("root", show((double) r0.real()) + " + i " + show((double) r0.imag())); t.nontrivial(u != 1 || c != 1); t.label_if(c / u < 1e-4L, "small derivative");
	typedef std::function<th::complex<>(th::complex<>)> CF; CF f = [&](th::complex<> z) { C x(z.Re() / u, z.Im() / u), v = (x - r0) * (x - r1) * c; return th::complex<>((real) v.real(), (real) v.imag()); }, df = [&](th::complex<> z) { C x(z.Re() / u, z.Im() / u), v = (2.0L * x - r0 - r1) * (c / u); return th::complex<>((real) v.real(), (real) v.imag()); };
	int err; th::complex<> z = with_errno(err, [&] { return th::root_newton(f, df, th::complex<>((real) (g0.real() * u), (real) (g0.imag() * u)), tol); }); ld e = 2 * tol / c / std::abs(r0 - r1) + 1e-13L; t.close(z.Re() / u, r0.real(), e, "complex Newton's method in other units, real part"); t.close(z.Im() / u, r0.imag(), e, "complex Newton's method in other units, imaginary part"); t.check(err == 0, "convergence reported an error");
}
// Many subintervals
LAW(many_subintervals, 300) {
	unsigned steps = (unsigned) t.n(300, 8000); ld w = t.r(5, 40); real a = (real) t.r(-3, 0), b = a + (real) t.r(1, 4); NOTE(steps); NOTE(a); NOTE(b); NOTE((double) w); t.nontrivial(); std::vector<ld> in; for (ld k = ceill(w * a / PIl); k * PIl / w <= b; ++k) in.push_back(k * PIl / w); ld dx = ((ld) b - a) / steps; for (ld y : in) { ld g = (y - a) / dx; if (fabsl(g - roundl(g)) < 1e-6L) t.discard(); }
	auto f = [&](real x) { return (real) sinl(w * x); }; t.eq(th::find_root_intervals(f, a, b, steps).size(), in.size(), "number of sign changes over many subintervals"); auto r = th::roots(f, a, b, (real) 1e-9, (real) steps); t.eq(r.size(), in.size(), "number of roots over many subintervals"); for (size_t i = 0; i < r.size() && i < in.size(); ++i) t.close(r[i], in[i], 3e-9L, "roots over many subintervals, in order");
}
// Roots far from the origin, where the tolerance is below the spacing of the numbers
LAW(far_roots, 4000) {
	real c = (real) t.rlogs(0, 14), w = (real) t.rlog(-2, 0) * std::fabs(c), u = (real) t.unit(); real a = c - w * (u + (real) 0.1), b = c + w * ((real) 1.1 - u), k = (real) t.rlogs(-3, 3) / w; NOTE(c); NOTE(a); NOTE(b); NOTE(k); t.nontrivial(std::fabs(c) > 1e8); int e; auto f = [=](real x) { return k * (x - c); }; const ld tol = 4e-8L + 8 * 2.3e-16L * fabsl(c);
	real x = with_errno(e, [&] { return th::root_bisect(f, a, b); }); t.check(e == 0, "bisection far from the origin reported an error"); t.close(x, c, tol, "root by bisection far from the origin");
	x = with_errno(e, [&] { return th::root_itp(f, a, b); }); t.check(e == 0, "ITP far from the origin reported an error"); t.close(x, c, tol, "root by ITP far from the origin");
}
