// C19: extrema of real functions, of multivariate functions, and roots of systems
#include "common.hpp"
#include "linref.hpp"
using namespace pbt;

// Unimodal shapes with the minimum at u = 0; slope(k, u) is the derivative
static ld shape(int k, ld u, ld p) {
	switch (k) { case 0: return u * u; case 1: return coshl(p * u) - 1; case 2: return u * u + 0.2L * u * u * u * u; case 3: return expm1l(u) - u; case 4: return 1 - expl(-p * u * u / 20); default: return u < 0 ? u * u : p * u * u; }
}
static ld slope(int k, ld u, ld p) {
	switch (k) { case 0: return 2 * u; case 1: return p * sinhl(p * u); case 2: return 2 * u + 0.8L * u * u * u; case 3: return expm1l(u); case 4: return p * u / 10 * expl(-p * u * u / 20); default: return u < 0 ? 2 * u : 2 * p * u; }
}
static ld curv(int k, ld u, ld p) {
	switch (k) { case 0: return 2; case 1: return p * p * coshl(p * u); case 2: return 2 + 2.4L * u * u; case 3: return expl(u); case 4: return p / 10 * (1 - p * u * u / 10) * expl(-p * u * u / 20); default: return u < 0 ? 2 : 2 * p; }
}

LAW(univariate, 60000) {
	int k = (int) t.i(0, 5); ld p = t.r(0.5, 2), c = (real) t.r(-4, 4); bool mx = t.coin(); real a = (real) (c - t.r(0.05, 5)), b = (real) (c + t.r(0.05, 5)); ld off = t.coin() ? 0 : t.r(-2, 2); ld s = mx ? -1 : 1;
	NOTE(k); NOTE((double) p); NOTE((double) c); NOTE(mx); NOTE(a); NOTE(b); NOTE((double) off); t.nontrivial(k > 0); t.label(mx ? "maximum" : "minimum");
	bool out = false; typedef std::function<real(real)> F;
	F f = [&](real x) { if (x < a - 1e-14 * fabs(a) || x > b + 1e-14 * fabs(b)) out = true; return (real) (off + s * shape(k, (ld) x - c, p)); }, Df = [&](real x) { return (real) (s * slope(k, (ld) x - c, p)); }, D2f = [&](real x) { return (real) (s * curv(k, (ld) x - c, p)); };
	// comparing values can only tell points sqrt(eps) apart
	ld cv = std::min(curv(k, -1e-9L, p), curv(k, 1e-9L, p)), e = 2e-8L + 8 * sqrtl(2.3e-16L * (1 + fabsl(off)) / cv); int err;
	double x = with_errno(err, [&] { return (double) (mx ? th::maximize_goldensection(f, a, b) : th::minimize_goldensection(f, a, b)); });
	t.close(x, c, e, mx ? "maximum by golden section" : "minimum by golden section"); t.check(err == 0, "golden section reported an error"); t.check(!out, "golden section left the interval");
	x = with_errno(err, [&] { return (double) (mx ? th::maximize_bisection(f, Df, a, b) : th::minimize_bisection(f, Df, a, b)); });
	t.close(x, c, 2.1e-8L, mx ? "maximum by bisection" : "minimum by bisection"); t.check(err == 0, "bisection reported an error");
	// the other kind of extremum must not be returned
	t.is_nan(with_errno(err, [&] { return (double) (!mx ? th::maximize_bisection(f, Df, a, b) : th::minimize_bisection(f, Df, a, b)); }), mx ? "minimum where there is a maximum" : "maximum where there is a minimum"); t.check(err != 0, "the wrong kind of extremum is reported");
	real g = (real) (c + t.r(-0.2, 0.2)); NOTE(g);
	x = with_errno(err, [&] { return (double) (mx ? th::maximize_newton(f, Df, D2f, g) : th::minimize_newton(f, Df, D2f, g)); }); t.close(x, c, 4e-8L / cv + 1e-12L, mx ? "maximum by Newton's method" : "minimum by Newton's method"); t.check(err == 0, "Newton's method reported an error");
	t.is_nan(with_errno(err, [&] { return (double) (!mx ? th::maximize_newton(f, Df, D2f, g) : th::minimize_newton(f, Df, D2f, g)); }), mx ? "minimum where there is a maximum" : "maximum where there is a minimum"); t.check(err != 0, "the wrong kind of extremum is reported");
	t.is_nan(with_errno(err, [&] { return (double) (mx ? th::maximize_goldensection(f, b, a) : th::minimize_goldensection(f, b, a)); }), "golden section with exchanged ends"); t.check(err != 0, "exchanged ends are reported");
	t.is_nan(with_errno(err, [&] { return (double) (mx ? th::maximize_bisection(f, Df, b, a) : th::minimize_bisection(f, Df, b, a)); }), "bisection with exchanged ends"); t.check(err != 0, "exchanged ends are reported");
}

LAW(at_the_border, 20000) {
	// a monotonic function has its extremum at an end of the interval
	ld m = t.rnz(0.1, 5), q = t.r(0, 0.5); real a = (real) t.r(-4, 4), b = a + (real) t.r(0.01, 6); NOTE((double) m); NOTE((double) q); NOTE(a); NOTE(b); t.nontrivial();
	auto f = [&](real x) { return (real) (m * (x + q * atanl(x))); }; real lo = m > 0 ? a : b, hi = m > 0 ? b : a;
	t.close(th::minimize_goldensection(f, a, b), lo, 2e-8, "minimum of a monotonic function"); t.close(th::maximize_goldensection(f, a, b), hi, 2e-8, "maximum of a monotonic function");
}

// ------------------------------------------------------------ several variables

// f(x) = s [ sum_i lam_i (q_i . (x - c))^2 / 2 + w (x0 - c0)^4 ] with orthonormal q_i, as a function pointer over globals
template<unsigned N> struct P { static real Q[N][N], lam[N], c[N], w, s; static unsigned long calls; };
template<unsigned N> real P<N>::Q[N][N]; template<unsigned N> real P<N>::lam[N]; template<unsigned N> real P<N>::c[N]; template<unsigned N> real P<N>::w; template<unsigned N> real P<N>::s; template<unsigned N> unsigned long P<N>::calls;
template<unsigned N> static th::multidual<N> field(th::vec<th::multidual<N>, N> x) {
	typedef P<N> G; ++G::calls; th::multidual<N> r = th::square(th::square(x[0] - G::c[0])) * G::w;
	for (unsigned i = 0; i < N; ++i) { th::multidual<N> y = (x[0] - G::c[0]) * G::Q[i][0]; for (unsigned j = 1; j < N; ++j) y = y + (x[j] - G::c[j]) * G::Q[i][j]; r = r + th::square(y) * (G::lam[i] * 0.5); }
	return r * G::s;
}
template<unsigned N> static th::multidual<N> plane(th::vec<th::multidual<N>, N> x) { th::multidual<N> r = x[0] * P<N>::lam[0]; for (unsigned j = 1; j < N; ++j) r = r + x[j] * P<N>::lam[j]; return r; }
template<unsigned N> static void rotation(T& t) {
	// product of plane rotations
	for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) P<N>::Q[i][j] = i == j;
	for (unsigned i = 0; i < N; ++i) for (unsigned j = i + 1; j < N; ++j) { ld a = t.r(0, 3); for (unsigned k = 0; k < N; ++k) { ld u = P<N>::Q[i][k], v = P<N>::Q[j][k]; P<N>::Q[i][k] = (real) (u * cosl(a) - v * sinl(a)); P<N>::Q[j][k] = (real) (u * sinl(a) + v * cosl(a)); } }
}
template<unsigned N> static void multi(T& t) {
	typedef P<N> G; rotation<N>(t); ld lmin = 1e9; for (unsigned i = 0; i < N; ++i) { G::lam[i] = (real) t.r(0.5, 3); lmin = std::min<ld>(lmin, G::lam[i]); G::c[i] = (real) t.r(-2, 2); }
	G::w = t.coin() ? 0 : (real) t.r(0, 0.3); bool mx = t.coin(); G::s = mx ? -1 : 1; th::vec<real, N> g; for (unsigned i = 0; i < N; ++i) g[i] = t.chance(1, 6) ? G::c[i] : (real) (G::c[i] + t.r(-2, 2));
	real tol = t.coin() ? th::OPTIMIZATION_MINGRAD_TOLERANCE : (real) t.rlog(-6, -1); th::vec<real, N> c; for (unsigned i = 0; i < N; ++i) c[i] = G::c[i];
	NOTE(c); NOTE(g); t.note("curvature", std::vector<real>(G::lam, G::lam + N)); NOTE(mx); NOTE(tol); t.note("quartic", G::w); t.nontrivial(N > 1); t.label_if(tol < th::OPTIMIZATION_MINGRAD_TOLERANCE, "tolerance below the default"); t.label(mx ? "maximum" : "minimum");
	int err; const ld e = 1.0L * tol / lmin + 1e-9L;
	auto chk = [&](const th::vec<real, N>& x, const char* what) { ld d = 0; for (unsigned i = 0; i < N; ++i) d += ((ld) x[i] - c[i]) * ((ld) x[i] - c[i]); t.check(std::isfinite((double) d), std::string(what) + ": no convergence"); t.close(sqrtl(d), 0, e, std::string(what) + ", distance from the extremum"); t.check(err == 0, std::string(what) + ": an error was reported"); };
	real gam = t.coin() ? (real) -0.05 : (real) -t.r(0.01, 0.15); NOTE(gam);
	if (mx) {
		chk(with_errno(err, [&] { return th::multi_maximize_grad<N>(field<N>, g, gam, tol); }), "gradient ascent");
		chk(with_errno(err, [&] { return th::multi_maximize_lingrad<N>(field<N>, g, tol); }), "gradient ascent with linear search");
		chk(with_errno(err, [&] { return th::multi_maximize<N>(field<N>, g, tol); }), "maximisation");
	} else {
		chk(with_errno(err, [&] { return th::multi_minimize_grad<N>(field<N>, g, gam, tol); }), "gradient descent");
		chk(with_errno(err, [&] { return th::multi_minimize_lingrad<N>(field<N>, g, tol); }), "gradient descent with linear search");
		chk(with_errno(err, [&] { return th::multi_minimize<N>(field<N>, g, tol); }), "minimisation");
	}
}
LAW(multivariate, 4000) { switch (t.i(0, 2)) { case 0: multi<1>(t); break; case 1: multi<2>(t); break; default: multi<3>(t); } }

LAW(multivariate_failures, 2000) {
	typedef P<2> G; G::lam[0] = (real) t.rnz(0.2, 3); G::lam[1] = (real) t.r(-3, 3); th::vec<real, 2> g; g[0] = (real) t.r(-3, 3); g[1] = (real) t.r(-3, 3); unsigned n = (unsigned) t.n(1, 60); t.note("plane", std::vector<real>(G::lam, G::lam + 2)); NOTE(g); NOTE(n); t.nontrivial();
	int err; auto bad = [&](const th::vec<real, 2>& x, const char* what) { t.is_nan(x[0], what); t.is_nan(x[1], what); t.check(err != 0, std::string(what) + " is reported"); };
	// a plane has no extremum: descending must end and be reported
	bad(with_errno(err, [&] { return th::multi_minimize_grad<2>(plane<2>, g, (real) -0.01, (real) 1e-3, n); }), "gradient descent on a plane");
	bad(with_errno(err, [&] { return th::multi_maximize_grad<2>(plane<2>, g, (real) -0.01, (real) 1e-3, n); }), "gradient ascent on a plane");
	bad(with_errno(err, [&] { return th::multi_minimize_lingrad<2>(plane<2>, g, (real) 1e-3, n); }), "linear search descent on a plane");
	bad(with_errno(err, [&] { return th::multi_maximize_lingrad<2>(plane<2>, g, (real) 1e-3, n); }), "linear search ascent on a plane");
	bad(with_errno(err, [&] { return th::multi_minimize_grad<2>(plane<2>, g, (real) t.r(0, 1), (real) 1e-3, n); }), "a step of the wrong sign");
}

// ------------------------------------------------------------ systems

template<unsigned N> static th::autodiff::dvec_t<N> system(th::autodiff::dvec_t<N> x) {
	typedef P<N> G; th::autodiff::dvec_t<N> r; r.resize(N);
	for (unsigned i = 0; i < N; ++i) { th::multidual<N> y = (x[0] - G::c[0]) * G::Q[i][0]; for (unsigned j = 1; j < N; ++j) y = y + (x[j] - G::c[j]) * G::Q[i][j]; r[i] = y * G::lam[i] + th::square(x[i] - G::c[i]) * G::w; }
	return r;
}
template<unsigned N> static void roots(T& t) {
	typedef P<N> G; rotation<N>(t); ld lmin = 1e9; for (unsigned i = 0; i < N; ++i) { G::lam[i] = (real) t.r(0.5, 3); lmin = std::min<ld>(lmin, G::lam[i]); G::c[i] = (real) t.r(-2, 2); } G::w = t.coin() ? 0 : (real) t.r(-0.3, 0.3);
	th::vec<real, N> g, c; for (unsigned i = 0; i < N; ++i) { c[i] = G::c[i]; g[i] = t.chance(1, 6) ? G::c[i] : (real) (G::c[i] + t.r(-0.25, 0.25)); } real tol = t.coin() ? th::OPTIMIZATION_MINGRAD_TOLERANCE : (real) t.rlog(-10, -2);
	NOTE(c); NOTE(g); t.note("scales", std::vector<real>(G::lam, G::lam + N)); t.note("quadratic", G::w); NOTE(tol); t.nontrivial(N > 1 && G::w != 0);
	int err; auto x = with_errno(err, [&] { return th::multiroot_newton<N>(system<N>, g, tol); }); ld d = 0; for (unsigned i = 0; i < N; ++i) d += ((ld) x[i] - c[i]) * ((ld) x[i] - c[i]);
	t.check(std::isfinite((double) d), "Newton's method for systems: no convergence"); t.close(sqrtl(d), 0, 2 * tol / lmin + 1e-12L, "distance from the root of the system"); t.check(err == 0, "Newton's method for systems reported an error");
}
LAW(systems, 20000) { switch (t.i(0, 2)) { case 0: roots<1>(t); break; case 1: roots<2>(t); break; default: roots<3>(t); } }
static th::autodiff::dvec_t<2> no_root(th::autodiff::dvec_t<2> x) { th::autodiff::dvec_t<2> r; r.resize(2); r[0] = th::square(x[0]) + P<2>::lam[0]; r[1] = x[1] + x[0]; return r; }
LAW(systems_without_roots, 5000) {
	P<2>::lam[0] = (real) t.r(0.1, 3); th::vec<real, 2> g; g[0] = (real) t.r(-3, 3); g[1] = (real) t.r(-3, 3); unsigned n = (unsigned) t.n(1, 60); t.note("offset", P<2>::lam[0]); NOTE(g); NOTE(n); t.nontrivial(g[0] != 0);
	int err; auto x = with_errno(err, [&] { return th::multiroot_newton<2>(no_root, g, (real) 1e-6, n); }); t.is_nan(x[0], "root of a system without roots"); t.check(err != 0, "missing convergence is reported");
}

// ------------------------------------------------------------ rough functions, units and histories

// Unimodal functions with a sharp minimum at u = 0: values tell apart any two points
static ld sharp(int k, ld u, ld p) {
	switch (k) { case 0: return fabsl(u); case 1: return u < 0 ? -u : p * u; case 2: return sqrtl(fabsl(u)); case 3: return fabsl(u) + (u > 0 ? 1 : 0); case 4: return expm1l(fabsl(u) / (1 + fabsl(u))); default: return fabsl(u) * (1 + 0.3L * sinl(logl(1 + fabsl(u)))); }
}
LAW(sharp_extrema, 40000) {
	int k = (int) t.i(0, 5), near = (int) t.i(0, 3); ld p = t.r(0.05, 20), c = (real) t.r(-4, 4); bool mx = t.coin(); real wa = (real) (near == 1 || near == 3 ? t.rlog(-9, -2) : t.r(0.05, 50)), wb = (real) (near == 2 || near == 3 ? t.rlog(-9, -2) : t.r(0.05, 50)), a = (real) c - wa, b = (real) c + wb; if (t.chance(1, 4)) { c = (real) t.i(-3, 3); a = (real) c - (real) t.i(1, 4); b = (real) c + 2 * ((real) c - a) - (t.coin() ? (real) c - a : 0); } real u = std::ldexp((real) 1, (int) t.i(-200, 200)); ld s = mx ? -1 : 1;
	NOTE(k); NOTE((double) p); NOTE((double) c); NOTE(mx); NOTE(a); NOTE(b); NOTE(u); t.nontrivial(); t.label_if(near == 3, "short interval"); t.label_if(near == 1 || near == 2, "extremum near an end"); typedef std::function<real(real)> F; bool out = false;
	F f = [&](real x) { if (x < a - 1e-14 * fabs(a) || x > b + 1e-14 * fabs(b)) out = true; return (real) (s * sharp(k, (ld) x - c, p)); }, fu = [&](real x) { return f(x) * u; }, fn = [&](real x) { return -f(x); }; int err;
	double x = with_errno(err, [&] { return (double) (mx ? th::maximize_goldensection(f, a, b) : th::minimize_goldensection(f, a, b)); }); t.close(x, c, 1.0L * th::OPTIMIZATION_TOL + 1e-14L * (fabsl(c) + fabsl(a) + fabsl(b)), mx ? "sharp maximum by golden section" : "sharp minimum by golden section"); t.check(err == 0, "golden section reported an error"); t.check(!out, "golden section left the interval");
	t.eq((double) (mx ? th::maximize_goldensection(fu, a, b) : th::minimize_goldensection(fu, a, b)), x, "golden section of a function in other units"); t.close((double) (mx ? th::minimize_goldensection(fn, a, b) : th::maximize_goldensection(fn, a, b)), c, 1.0L * th::OPTIMIZATION_TOL + 1e-14L * (fabsl(c) + fabsl(a) + fabsl(b)), "golden section of the opposite function");
	// derivative with a jump: the sign change is the extremum
	F D = [&](real z) { ld v = (ld) z - c; return (real) (s * (v < 0 ? -1 - (k & 1) * v * v : v > 0 ? p + (k & 2) * v : 0)) * u; }; x = with_errno(err, [&] { return (double) (mx ? th::maximize_bisection(f, D, a, b) : th::minimize_bisection(f, D, a, b)); }); t.close(x, c, 2.0L * th::OPTIMIZATION_TOL + 1e-14L * (fabsl(c) + fabsl(a) + fabsl(b)), mx ? "sharp maximum by bisection" : "sharp minimum by bisection"); t.check(err == 0, "bisection reported an error");
	t.is_nan(with_errno(err, [&] { return (double) (!mx ? th::maximize_bisection(f, D, a, b) : th::minimize_bisection(f, D, a, b)); }), mx ? "sharp minimum where there is a maximum" : "sharp maximum where there is a minimum"); t.check(err != 0, "the wrong kind of extremum is reported");
}

// Both kinds of extremum in the same function: each method finds the one it is asked for
LAW(wave_extrema, 30000) {
	ld w = t.rlog(-0.5, 1.5), ph = t.r(0, 6.2), amp = t.rnz(0.5, 3); bool mx = t.coin(); int m = (int) t.i(-3, 3); ld c = ((amp > 0) == mx ? 0.5L : -0.5L) * PIl; c = (c + 2 * m * PIl - ph) / w; NOTE((double) w); NOTE((double) ph); NOTE((double) amp); NOTE(mx); NOTE(m); t.nontrivial(m != 0); t.label(mx ? "maximum" : "minimum");
	typedef std::function<real(real)> F; F f = [&](real x) { return (real) (amp * sinl(w * x + ph)); }, D = [&](real x) { return (real) (amp * w * cosl(w * x + ph)); }, D2 = [&](real x) { return (real) (-amp * w * w * sinl(w * x + ph)); }; real a = (real) (c - t.r(0.02, 0.98) * PIl / w), b = (real) (c + t.r(0.02, 0.98) * PIl / w), g = (real) (c + t.r(-0.4, 0.4) / w); NOTE(a); NOTE(b); NOTE(g); ld cv = fabsl(amp) * w * w; int err;
	auto chk = [&](double x, ld e, const char* what) { t.close(x, c, e + 1e-14L * fabsl(c), std::string(mx ? "maximum" : "minimum") + " of a wave by " + what); t.check(err == 0, std::string(what) + " reported an error"); };
	chk(with_errno(err, [&] { return (double) (mx ? th::maximize_goldensection(f, a, b) : th::minimize_goldensection(f, a, b)); }), 2e-8L + 8 * sqrtl(2.3e-16L * fabsl(amp) / cv * (1 + fabsl(c) * w)), "golden section"); chk(with_errno(err, [&] { return (double) (mx ? th::maximize_bisection(f, D, a, b) : th::minimize_bisection(f, D, a, b)); }), 2.1e-8L, "bisection"); chk(with_errno(err, [&] { return (double) (mx ? th::maximize_newton(f, D, D2, g) : th::minimize_newton(f, D, D2, g)); }), 2.1e-8L / cv + 1e-12L, "Newton's method");
	// next to the other kind of extremum, Newton's method must not return it
	real o = (real) (c + PIl / w + t.r(-0.1, 0.1) / w); NOTE(o); t.is_nan(with_errno(err, [&] { return (double) (mx ? th::maximize_newton(f, D, D2, o) : th::minimize_newton(f, D, D2, o)); }), "Newton's method next to the other kind of extremum"); t.check(err != 0, "the wrong kind of extremum is reported");
}

template<unsigned N> static void far(T& t) {
	typedef P<N> G; if (t.coin()) rotation<N>(t); else { unsigned sh = (unsigned) t.n(0, N - 1); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) G::Q[i][j] = j == (i + sh) % N; t.label("axes exchanged"); }
	ld lmin = 1e9, lmax = 0; for (unsigned i = 0; i < N; ++i) { G::lam[i] = (real) t.rlog(-0.7, 1.2); lmin = std::min<ld>(lmin, G::lam[i]); lmax = std::max<ld>(lmax, G::lam[i]); G::c[i] = t.chance(1, 6) ? (real) 0 : (real) t.rlogs(-2, 1.5); } G::w = 0; bool mx = t.coin(), zero = t.chance(1, 4); G::s = mx ? -1 : 1; th::vec<real, N> g(0), c; for (unsigned i = 0; i < N; ++i) { c[i] = G::c[i]; if (!zero) g[i] = (real) t.rlogs(-2, 1.5); } real tol = (real) t.rlog(-5, -1);
	NOTE(c); NOTE(g); t.note("curvature", std::vector<real>(G::lam, G::lam + N)); NOTE(mx); NOTE(tol); t.nontrivial(N > 1); t.label_if(zero, "default guess"); int err; const ld e = 1.0L * tol / lmin + 1e-9L;
	auto chk = [&](const th::vec<real, N>& x, const char* what) { ld d = 0; for (unsigned i = 0; i < N; ++i) d += ((ld) x[i] - c[i]) * ((ld) x[i] - c[i]); t.check(std::isfinite((double) d), std::string(what) + ": no convergence"); t.close(sqrtl(d), 0, e, std::string(what) + ", distance from the extremum"); t.check(err == 0, std::string(what) + ": an error was reported"); };
	real gam = (real) (-t.r(0.3, 1) / lmax); NOTE(gam);
	if (mx) { chk(with_errno(err, [&] { return th::multi_maximize_grad<N>(field<N>, g, gam, tol); }), "gradient ascent from afar"); chk(with_errno(err, [&] { return zero ? th::multi_maximize_lingrad<N>(field<N>, g, tol, 100000u) : th::multi_maximize_lingrad<N>(field<N>, g, tol); }), "gradient ascent with linear search from afar"); }
	else { chk(with_errno(err, [&] { return th::multi_minimize_grad<N>(field<N>, g, gam, tol); }), "gradient descent from afar"); chk(with_errno(err, [&] { return zero ? th::multi_minimize_lingrad<N>(field<N>, g, tol, 100000u) : th::multi_minimize_lingrad<N>(field<N>, g, tol); }), "gradient descent with linear search from afar"); }
	// the search along the gradient finds the extremum of a spherical function at once
	{ real l0 = t.coin() ? (real) 1 : (real) t.r(1, 10), keep[N]; for (unsigned i = 0; i < N; ++i) { keep[i] = G::lam[i]; G::lam[i] = l0; } NOTE(l0); auto x = with_errno(err, [&] { return mx ? th::multi_maximize_lingrad<N>(field<N>, g, (real) 1e-3, 4u) : th::multi_minimize_lingrad<N>(field<N>, g, (real) 1e-3, 4u); }); for (unsigned i = 0; i < N; ++i) G::lam[i] = keep[i]; ld d = 0; for (unsigned i = 0; i < N; ++i) d += ((ld) x[i] - c[i]) * ((ld) x[i] - c[i]); t.check(err == 0 && sqrtl(d) < 2e-3L, "the linear search does not find the extremum of a spherical function in four steps"); }
	// default arguments
	if (zero && lmax < 1.5L) { auto x = with_errno(err, [&] { return mx ? th::multi_maximize<N>(field<N>) : th::multi_minimize<N>(field<N>); }); ld d = 0; for (unsigned i = 0; i < N; ++i) d += ((ld) x[i] - c[i]) * ((ld) x[i] - c[i]); t.check(sqrtl(d) <= (ld) th::OPTIMIZATION_MINGRAD_TOLERANCE / lmin + 1e-9L, "optimisation with default arguments"); t.check(err == 0, "optimisation with default arguments reported an error"); }
}
LAW(far_extrema, 1500) { switch (t.i(0, 3)) { case 0: far<1>(t); break; case 1: far<2>(t); break; case 2: far<3>(t); break; default: far<5>(t); } }

template<unsigned N> static void pivots(T& t) {
	// a permutation of the equations, with scales of different size: the elimination has to exchange rows
	typedef P<N> G; unsigned sh = (unsigned) t.n(0, N - 1); bool tri = t.coin(); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) G::Q[i][j] = j == (i + sh) % N ? 1 : tri && j > (i + sh) % N ? (real) t.i(-1, 1) : 0;
	ld lmin = 1e9; for (unsigned i = 0; i < N; ++i) { G::lam[i] = (real) t.rlogs(-1, 1); lmin = std::min<ld>(lmin, fabsl(G::lam[i])); G::c[i] = t.chance(1, 5) ? (real) 0 : (real) t.rlogs(-2, 2); } G::w = 0; th::vec<real, N> g(0), c; bool zero = t.chance(1, 4); for (unsigned i = 0; i < N; ++i) { c[i] = G::c[i]; if (!zero) g[i] = (real) t.rlogs(-2, 2); } real tol = (real) t.rlog(-9, -2); if (t.chance(1, 8)) g = c;
	NOTE(c); NOTE(g); NOTE(sh); NOTE(tri); t.note("scales", std::vector<real>(G::lam, G::lam + N)); NOTE(tol); t.nontrivial(N > 1 && sh != 0); int err;
	auto dist = [&](const th::vec<real, N>& x) { ld d = 0; for (unsigned i = 0; i < N; ++i) d += ((ld) x[i] - c[i]) * ((ld) x[i] - c[i]); return sqrtl(d); }; const ld amp = tri ? powl(2, N) : 1;
	auto x = with_errno(err, [&] { return th::multiroot_newton<N>(system<N>, g, tol); }); t.check(err == 0, "Newton's method for a linear system reported an error"); t.close(dist(x), 0, amp * (tol / lmin + 1e-11L), "root of a linear system");
	// a linear system needs one step and the evaluation which accepts it
	x = with_errno(err, [&] { return th::multiroot_newton<N>(system<N>, g, tol, 2u); }); t.check(err == 0, "Newton's method for a linear system needs more than two steps"); t.close(dist(x), 0, amp * (tol / lmin + 1e-11L), "root of a linear system in two steps");
	if (zero) { x = with_errno(err, [&] { return th::multiroot_newton<N>(system<N>); }); t.check(err == 0, "Newton's method with default arguments reported an error"); t.close(dist(x), 0, amp * ((ld) th::OPTIMIZATION_MINGRAD_TOLERANCE / lmin + 1e-11L), "root of a system with default arguments"); }
}
LAW(pivoted_systems, 15000) { switch (t.i(0, 3)) { case 0: pivots<1>(t); break; case 1: pivots<2>(t); break; case 2: pivots<3>(t); break; default: pivots<5>(t); } }

// Flat functions: the kind of the extremum does not depend on the unit of the values
LAW(flat_functions, 20000) {
	ld k = t.rlog(-5, 0), c = (real) t.r(-3, 3); bool mn = t.coin(); ld s = mn ? 1 : -1; real g = (real) (c + t.r(-1, 1)), a = (real) (c - t.r(0.1, 2)), b = (real) (c + t.r(0.1, 2)); NOTE((double) k); NOTE((double) c); NOTE(mn); NOTE(g); t.nontrivial(k < 1e-2L); typedef std::function<real(real)> F; F f = [&](real x) { return (real) (s * k * ((ld) x - c) * ((ld) x - c) / 2); }, D = [&](real x) { return (real) (s * k * ((ld) x - c)); }, D2 = [&](real) { return (real) (s * k); }; int err;
	double x = with_errno(err, [&] { return (double) (mn ? th::minimize_newton(f, D, D2, g) : th::maximize_newton(f, D, D2, g)); }); t.close(x, c, 1.1L * th::OPTIMIZATION_TOL / k + 1e-12L, "extremum of a flat function by Newton's method"); t.check(err == 0, "Newton's method reported an error on a flat function");
	t.is_nan(with_errno(err, [&] { return (double) (mn ? th::maximize_newton(f, D, D2, g) : th::minimize_newton(f, D, D2, g)); }), "Newton's method at the other kind of a flat extremum"); t.check(err != 0, "the wrong kind of a flat extremum is reported");
	x = with_errno(err, [&] { return (double) (mn ? th::minimize_bisection(f, D, a, b) : th::maximize_bisection(f, D, a, b)); }); t.close(x, c, 2.1L * th::OPTIMIZATION_TOL, "extremum of a flat function by bisection"); t.check(err == 0, "bisection reported an error on a flat function"); t.is_nan(with_errno(err, [&] { return (double) (mn ? th::maximize_bisection(f, D, a, b) : th::minimize_bisection(f, D, a, b)); }), "bisection at the other kind of a flat extremum"); t.check(err != 0, "the wrong kind of a flat extremum is reported");
}
// Steep functions and distant starts
template<unsigned N> static void steep(T& t) {
	typedef P<N> G; rotation<N>(t); ld base = t.rlog(0, 4), lmin = 1e30L, lmax = 0; for (unsigned i = 0; i < N; ++i) { G::lam[i] = (real) (base * t.r(1, 2)); lmin = std::min<ld>(lmin, G::lam[i]); lmax = std::max<ld>(lmax, G::lam[i]); G::c[i] = (real) t.r(-2, 2); } G::w = 0; bool mx = t.coin(); G::s = mx ? -1 : 1; ld away = t.rlog(-1, 3); th::vec<real, N> g, c; for (unsigned i = 0; i < N; ++i) { c[i] = G::c[i]; g[i] = (real) (G::c[i] + t.r(-1, 1) * away); } real tol = (real) (t.rlog(-6, -2) * std::max<ld>(1, base * 1e-2L)); real gam = (real) (-t.r(0.3, 1) / lmax); NOTE(c); NOTE(g); NOTE(mx); NOTE(tol); NOTE(gam); t.note("curvature", std::vector<real>(G::lam, G::lam + N)); t.nontrivial(base > 100 || away > 30); t.label_if(base * away > 1e4L, "large gradient"); int err; const ld e = 1.0L * tol / lmin + 1e-11L * (1 + away);
	auto chk = [&](const th::vec<real, N>& x, const char* what) { ld d = 0; for (unsigned i = 0; i < N; ++i) d += ((ld) x[i] - c[i]) * ((ld) x[i] - c[i]); t.check(std::isfinite((double) d), std::string(what) + ": no convergence"); t.close(sqrtl(d), 0, e, std::string(what) + ", distance from the extremum"); t.check(err == 0, std::string(what) + ": an error was reported"); };
	chk(with_errno(err, [&] { return mx ? th::multi_maximize_grad<N>(field<N>, g, gam, tol) : th::multi_minimize_grad<N>(field<N>, g, gam, tol); }), mx ? "ascent of a steep function" : "descent of a steep function");
	if (away < 30) chk(with_errno(err, [&] { return mx ? th::multi_maximize_lingrad<N>(field<N>, g, tol) : th::multi_minimize_lingrad<N>(field<N>, g, tol); }), mx ? "ascent with linear search of a steep function" : "descent with linear search of a steep function");
}
LAW(steep_functions, 1500) { switch (t.i(0, 2)) { case 0: steep<1>(t); break; case 1: steep<2>(t); break; default: steep<3>(t); } }
// Extrema far from the origin, where the tolerance is below the spacing of the numbers
LAW(very_far_extrema, 4000) {
	real c = (real) t.rlogs(0, 14), w = (real) t.rlog(-2, 0) * std::fabs(c), u = (real) t.unit(); real a = c - w * (u + (real) 0.1), b = c + w * ((real) 1.1 - u); NOTE(c); NOTE(a); NOTE(b); t.nontrivial(std::fabs(c) > 1e8); int e; auto f = [=](real x) { real z = (x - c) / w; return z * z; }; auto g = [=](real x) { real z = (x - c) / w; return -z * z; }; const ld tol = 4e-8L + 16 * 2.3e-16L * fabsl(c);
	real x = with_errno(e, [&] { return th::minimize_goldensection(f, a, b); }); t.check(e == 0, "golden section far from the origin reported an error"); t.close(x, c, tol, "minimum far from the origin");
	x = with_errno(e, [&] { return th::maximize_goldensection(g, a, b); }); t.check(e == 0, "golden section far from the origin reported an error"); t.close(x, c, tol, "maximum far from the origin");
}
