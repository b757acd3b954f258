// C15: numerical differentiation, integration and Taylor expansion
#include "jets.hpp"
using namespace pbt;
using jets::J;
typedef std::vector<ld> L;
static ld ev(const L& c, ld x) { ld s = 0; for (size_t i = c.size(); i--;) s = s * x + c[i]; return s; }
static L der(const L& c) { L d; for (size_t i = 1; i < c.size(); ++i) d.push_back(c[i] * i); return d; }
static ld prim(const L& c, ld x) { ld s = 0; for (size_t i = c.size(); i--;) s = (s + c[i] / (ld) (i + 1)) * x; return s; }
static ld mag(const L& c, ld x) { ld s = 0; x = fabsl(x); for (size_t i = c.size(); i--;) s = s * x + fabsl(c[i]); return s; }
static L rnd(T& t, int d) { L c(d + 1); bool ints = t.coin(); for (auto& v : c) v = ints ? (ld) t.i(-3, 3) : (ld) (real) t.r(-3, 3); return c; }
static std::string str(const L& c) { std::string s; for (ld v : c) s += show((double) v) + " "; return s; }

// ------------------------------------------------------------ derivatives

LAW(difference_quotients, 60000) {
	// the finite difference of a polynomial is known in closed form
	int d = (int) t.n(0, 3); L c = rnd(t, d); c.resize(5, 0);
	real x = (real) t.r(-3, 3), h = t.chance(1, 3) ? th::CALCULUS_DERIV_STEP : (real) t.rlog(-4, -0.5);
	t.note("coefficients", str(c)); NOTE(x); NOTE(h); t.nontrivial(d > 1);
	auto f = [&](real y) { return (real) ev(c, y); };
	L d1 = der(c), d2 = der(d1), d3 = der(d2);
	ld r = 2e-15 * (1 + mag(c, fabsl(x) + h)) / h, f1 = ev(d1, x), f2 = ev(d2, x), f3 = ev(d3, x);
	t.close(th::deriv_forward(f, x, h), f1 + f2 * h / 2 + f3 * h * h / 6, r, "forward difference");
	t.close(th::deriv_backward(f, x, h), f1 - f2 * h / 2 + f3 * h * h / 6, r, "backward difference");
	t.close(th::deriv_central(f, x, h), f1 + f3 * h * h / 6, r, "central difference");
	t.close(th::deriv2(f, x, h), f2, 4 * r / h, "second difference");
	t.close(th::deriv_ridders2(f, x, h), f1, 8 * r, "Ridders' method of second degree");
	t.close(th::deriv(f, x, h), f1, 8 * r, "derivative");
}

LAW(extrapolated_derivatives, 40000) {
	// Ridders' method of degree k is exact up to polynomials of degree 2k
	unsigned k = (unsigned) t.n(1, 5); int d = (int) t.n(0, 2 * (int) k); L c = rnd(t, d);
	real x = (real) t.r(-1.5, 1.5), h = t.chance(1, 3) ? 0.01 : (real) t.rlog(-2.5, -0.3);
	NOTE(k); t.note("coefficients", str(c)); NOTE(x); NOTE(h); t.nontrivial(d > 2);
	auto f = [&](real y) { return (real) ev(c, y); };
	ld r = 1e-14 * (1 + mag(c, fabsl(x) + h)) / h * (1 << k);
	t.close(th::deriv_ridders(f, x, h, k), ev(der(c), x), r, "Ridders' method");
	L q(c.begin(), c.begin() + std::min((size_t) 5, c.size()));
	auto g = [&](real y) { return (real) ev(q, y); };
	t.close(th::deriv_ridders2(g, x, h), ev(der(q), x), r * 4, "Ridders' method of second degree on quartics");
	t.close(th::deriv(g, x, h), ev(der(q), x), r * 4, "derivative of quartics");
}

LAW(derivatives_of_smooth_functions, 40000) {
	ld a = t.r(-2, 2), b = t.r(0.2, 2), w = t.r(0.2, 3); real x = (real) t.r(-2, 2);
	NOTE((double) a); NOTE((double) b); NOTE((double) w); NOTE(x); t.nontrivial(a != 0);
	auto f = [&](real y) { return (real) (a * sinl(w * y) + expl(b * y)); };
	ld D = a * w * cosl(w * x) + b * expl(b * x), D2 = -a * w * w * sinl(w * x) + b * b * expl(b * x);
	// bounds of the derivatives up to the fifth around the point
	auto M = [&](int k) { return fabsl(a) * powl(w, k) + powl(b, k) * expl(b * (x + 0.02L)); };
	const ld h = th::CALCULUS_DERIV_STEP, e = 1e-15 * (1 + M(0)) / h * 4;
	t.close(th::deriv_forward(f, x), D, M(2) * h + e, "forward difference with the default step");
	t.close(th::deriv_backward(f, x), D, M(2) * h + e, "backward difference with the default step");
	t.close(th::deriv_central(f, x), D, M(3) * h * h + e, "central difference with the default step");
	t.close(th::deriv_ridders2(f, x), D, M(5) * h * h * h * h + 4 * e, "Ridders' method with the default step");
	t.close(th::deriv(f, x), D, M(5) * h * h * h * h + 4 * e, "derivative with the default step");
	t.close(th::deriv_ridders(f, x), D, M(7) * 1e-12 + 1e-12 * (1 + M(0)), "Ridders' method of third degree with the default step");
	t.close(th::deriv2(f, x), D2, M(4) * h * h + 8 * e / h, "second derivative with the default step");
}

// ------------------------------------------------------------ integrals

LAW(composite_rules, 60000) {
	// the error of each rule is known in closed form on cubics
	L c = rnd(t, (int) t.n(0, 3)); c.resize(4, 0);
	real a = (real) t.r(-3, 3), b = (real) t.r(-3, 3); unsigned n = t.chance(1, 6) ? 100 : (unsigned) t.sz(1, 60, 3000);
	t.note("coefficients", str(c)); NOTE(a); NOTE(b); NOTE(n); t.nontrivial(a != b && (c[2] != 0 || c[3] != 0));
	t.label(a > b ? "reversed" : "ordered"); t.label(n % 2 ? "odd steps" : "even steps");
	auto f = [&](real y) { return (real) ev(c, y); };
	ld A = a, B = b, w = prim(c, B) - prim(c, A), h = (B - A) / n, r = 1e-13 * (1 + mag(c, std::max(fabsl(A), fabsl(B)))) * (1 + fabsl(B - A));
	ld df = ev(der(c), B) - ev(der(c), A); // Euler-Maclaurin: exact on cubics
	t.close(th::integral_trapezoid(f, a, b, n), w + h * h / 12 * df, r, "trapezoid rule");
	t.close(th::integral_midpoint(f, a, b, n), w - h * h / 24 * df, r, "midpoint rule");
	t.close(th::integral_simpson(f, a, b, n), w, r, "Simpson's rule");
	if (n == 100) {
		t.close(th::integral_trapezoid(f, a, b), w + h * h / 12 * df, r, "trapezoid rule, default steps");
		t.close(th::integral_midpoint(f, a, b), w - h * h / 24 * df, r, "midpoint rule, default steps");
		t.close(th::integral_simpson(f, a, b), w, r, "Simpson's rule, default steps");
	}
}

LAW(romberg_exactness, 40000) {
	// with k levels Romberg's method is exact up to degree 2k - 1
	unsigned k = (unsigned) t.n(1, 8); int d = (int) t.n(0, std::min(2 * (int) k - 1, 11)); L c = rnd(t, d);
	real a = (real) t.r(-2, 2), b = (real) t.r(-2, 2); NOTE(k); t.note("coefficients", str(c)); NOTE(a); NOTE(b); t.nontrivial(d > 1 && a != b);
	t.label(a > b ? "reversed" : "ordered");
	auto f = [&](real y) { return (real) ev(c, y); };
	ld w = prim(c, b) - prim(c, a), r = 1e-11 * (1 + mag(c, std::max(fabsl(a), fabsl(b)))) * (1 + fabsl((ld) b - a));
	t.close(th::integral_romberg(f, a, b, k), w, r, "Romberg's method");
	if (d <= 11) t.close(th::integral_romberg(f, a, b), w, r, "Romberg's method with the default order");
}

LAW(smooth_integrals, 40000) {
	// positive combinations of exponentials: all derivatives have one sign, so that no convergence test is met by accident
	int n = (int) t.n(1, 3); bool dec = t.coin(); std::vector<ld> k, m;
	for (int i = 0; i < n; ++i) { k.push_back(t.r(0.1, 2.5) * (dec ? -1 : 1)); m.push_back(t.r(0.1, 3)); }
	real a = (real) t.r(-1.5, 1.5), b = (real) t.r(-1.5, 1.5); NOTE(dec); t.note("rates", str(k)); t.note("weights", str(m)); NOTE(a); NOTE(b);
	t.nontrivial(a != b);
	auto f = [&](real y) { ld s = 0; for (int i = 0; i < n; ++i) s += m[i] * expl(k[i] * y); return (real) s; };
	ld w = 0, sc = 1, d1 = 0, d3 = 0;
	for (int i = 0; i < n; ++i) { ld ea = expl(k[i] * a), eb = expl(k[i] * b); w += m[i] / k[i] * (eb - ea); sc += m[i] * (ea + eb); d1 += m[i] * fabsl(k[i] * (eb - ea)); d3 += m[i] * fabsl(k[i] * k[i] * k[i] * (eb - ea)); }
	t.close(th::integral(f, a, b), w, 1e-7 + 1e-12 * sc, "integral");
	real tol = (real) t.rlog(-10, -3); NOTE(tol);
	t.close(th::integral(f, a, b, tol), w, 10 * tol + 1e-12 * sc, "integral to a tolerance");
	t.close(th::integral_romberg_tol(f, a, b, tol), w, 10 * tol + 1e-12 * sc, "Romberg's method to a tolerance");
	t.close(th::integral_romberg(f, a, b), w, 1e-11 * sc, "Romberg's method");
	const ld h = fabsl((ld) b - a) / 100;
	t.close(th::integral_trapezoid(f, a, b), w, h * h * d1 / 12 * 1.01 + 1e-12 * sc, "trapezoid rule");
	t.close(th::integral_midpoint(f, a, b), w, h * h * d1 / 24 * 1.01 + 1e-12 * sc, "midpoint rule");
	t.close(th::integral_simpson(f, a, b), w, h * h * h * h * d3 / 180 * 1.01 + 1e-12 * sc, "Simpson's rule");
	// additivity over a partition
	real p = (real) t.r(-1.5, 1.5);
	t.close((ld) th::integral(f, a, p) + th::integral(f, p, b), w, 2e-7 + 1e-12 * sc, "additivity");
}

LAW(improper_integrals, 10000) {
	ld k = t.r(0.6, 3), m = t.r(0.2, 3); real a = (real) t.r(-1, 3), step = t.chance(1, 2) ? 1 : (real) t.r(0.5, 2); NOTE((double) k); NOTE((double) m); NOTE(a); NOTE(step);
	t.nontrivial();
	auto f = [&](real y) { return (real) (m * expl(-k * y)); };
	int err; ld w = m / k * expl(-k * a);
	// the tail left out is the last increment over e^(k step) - 1
	double g = with_errno(err, [&] { return (double) th::integral_inf_riemann(f, a, step); });
	t.check(err == 0, "a rapidly decreasing function reported an error");
	t.close(g, w, 1e-8 / (expl(k * step) - 1) + 2e-6, "integral up to infinity");
	// a function which does not decrease has no such integral
	double z = with_errno(err, [&] { return (double) th::integral_inf_riemann([](real) { return (real) 1; }, a, step); });
	t.is_nan(z, "integral of a constant up to infinity"); t.check(err != 0, "a diverging integral is reported");
}

LAW(degenerate_steps, 2000) {
	real a = (real) t.r(-1, 1), b = (real) t.r(-1, 1); NOTE(a); NOTE(b); t.nontrivial();
	auto f = [](real y) { return y + 1; }; int err;
	t.is_nan(with_errno(err, [&] { return (double) th::integral_midpoint(f, a, b, 0); }), "midpoint rule with no steps"); t.check(err != 0, "no steps are reported");
	t.is_nan(with_errno(err, [&] { return (double) th::integral_trapezoid(f, a, b, 0); }), "trapezoid rule with no steps"); t.check(err != 0, "no steps are reported");
	t.is_nan(with_errno(err, [&] { return (double) th::integral_simpson(f, a, b, 0); }), "Simpson's rule with no steps"); t.check(err != 0, "no steps are reported");
	t.close(th::integral(f, a, a), 0, 1e-15, "integral over a point");
}

// ------------------------------------------------------------ Taylor expansions

LAW(taylor_expansions, 60000) {
	real x0 = t.chance(1, 4) ? (real) t.i(-2, 2) : (real) t.r(-3, 3); Prog p;
	std::vector<J> r = {J::var(x0, 1, 0), J::var(x0, 1, 0)}; J w = gen_prog(t, p, r, t.n(1, 6));
	t.note("program", prog_str(p)); NOTE(x0); t.nontrivial(p.size() > 1 && x0 != 0); t.label_if(x0 == 0, "around zero");
	const ld e = 1e-9 * (1 + w.size()) * (1 + fabsl(x0)) * (1 + fabsl(x0));
	auto l = th::taylor::expand_linear([&](th::dual x) { return run(p, std::vector<th::dual>{x, x}); }, x0);
	auto q = th::taylor::expand_quadratic([&](th::dual2 x) { return run(p, std::vector<th::dual2>{x, x}); }, x0);
	t.check(l.size() <= 2, "degree of the linear expansion"); t.check(q.size() <= 3, "degree of the quadratic expansion");
	real x = (real) t.r(-3, 3), dx = x - x0; NOTE(x);
	t.close(l(x), w.v + w.g[0] * dx, e * (1 + fabsl(dx)), "linear expansion");
	t.close(q(x), w.v + w.g[0] * dx + w.h[0] * dx * dx / 2, e * (1 + dx * dx), "quadratic expansion");
	t.close(l(x0), w.v, e, "linear expansion at its centre"); t.close(q(x0), w.v, e, "quadratic expansion at its centre");
}

// The unit of the variable and of the function is arbitrary: every rule scales with them, and only samples inside the interval
LAW(units_and_samples, 40000) {
	const real u = std::ldexp(1.0, (int) t.i(-40, 40)), c = std::ldexp(1.0, (int) t.i(-40, 40)); ld k = t.r(-2, 2), w = t.r(0.2, 3), m = gen_factor(t, 3); real a = (real) t.r(-2, 2), b = t.chance(1, 8) ? a + (real) t.rlogs(-9, -2) : t.chance(1, 10) ? a : (real) t.r(-2, 2); unsigned n = t.chance(1, 6) ? 100 : (unsigned) t.sz(1, 60, 600);
	NOTE(u); NOTE(c); NOTE((double) k); NOTE((double) w); NOTE((double) m); NOTE(a); NOTE(b); NOTE(n); t.nontrivial(a != b && (u != 1 || c != 1)); t.label_if(std::fabs(a - b) < 1e-2 && a != b, "short interval"); t.label_if(a == b, "empty interval");
	auto f = [&](real y) { return (real) (expl(k * y) + m * sinl(w * y)); }; real lo = std::min(a, b), hi = std::max(a, b); bool out = false; const ld slack = 1e-14L * (1 + fabsl(a) + fabsl(b));
	auto g = [&](real y) { real z = y / u; if (!(z >= lo - slack && z <= hi + slack)) out = true; return f(z) * c; }; real A = a * u, B = b * u; ld sc = 1e-14L * (expl(fabsl(k) * 2) + fabsl(m)) * fabsl((ld) b - a);
	auto same = [&](real got, real base, const char* msg) { t.close((ld) got / (ld) u / (ld) c, base, sc, std::string(msg) + " in other units"); t.check(!out, std::string(msg) + " samples the function outside the interval"); };
	same(th::integral_trapezoid(g, A, B, n), th::integral_trapezoid(f, a, b, n), "trapezoid rule"); same(th::integral_midpoint(g, A, B, n), th::integral_midpoint(f, a, b, n), "midpoint rule"); same(th::integral_simpson(g, A, B, n), th::integral_simpson(f, a, b, n), "Simpson's rule");
	unsigned it = (unsigned) t.n(1, 9); NOTE(it); same(th::integral_romberg(g, A, B, it), th::integral_romberg(f, a, b, it), "Romberg's method"); real tol = (real) t.rlog(-10, -3); NOTE(tol); same(th::integral_romberg_tol(g, A, B, tol * u * c), th::integral_romberg_tol(f, a, b, tol), "Romberg's method to a tolerance"); same(th::integral(g, A, B, tol * u * c), th::integral_romberg_tol(f, a, b, tol), "integral to a tolerance");
	// exchange of the ends, and a shift of the variable
	t.close(th::integral_simpson(f, b, a, n), -(ld) th::integral_simpson(f, a, b, n), sc * 10, "Simpson's rule with the ends exchanged"); t.close(th::integral_trapezoid(f, b, a, n), -(ld) th::integral_trapezoid(f, a, b, n), sc * 10, "trapezoid rule with the ends exchanged"); t.close(th::integral_midpoint(f, b, a, n), -(ld) th::integral_midpoint(f, a, b, n), sc * 10, "midpoint rule with the ends exchanged"); t.close(th::integral_romberg(f, b, a, it), -(ld) th::integral_romberg(f, a, b, it), sc * 10, "Romberg's method with the ends exchanged");
	// derivatives
	real x = (real) t.r(-2, 2), h = (real) std::ldexp(1.0, (int) t.i(-14, -2)); NOTE(x); NOTE(h); lo = x - h; hi = x + h; out = false; unsigned dg = (unsigned) t.n(1, 6); NOTE(dg); ld e = 1e-14L * (expl(fabsl(k) * 2.5L) + fabsl(m)) / h;
	auto dsame = [&](real got, real base, int order, const char* msg) { t.close((ld) got * powl(u, order) / (ld) c, base, e * (order > 1 ? 4 / h : 1) * 16, std::string(msg) + " in other units"); t.check(!out, std::string(msg) + " samples the function outside its stencil"); };
	dsame(th::deriv_central(g, x * u, h * u), th::deriv_central(f, x, h), 1, "central difference"); dsame(th::deriv_forward(g, x * u, h * u), th::deriv_forward(f, x, h), 1, "forward difference"); dsame(th::deriv_backward(g, x * u, h * u), th::deriv_backward(f, x, h), 1, "backward difference"); dsame(th::deriv_ridders2(g, x * u, h * u), th::deriv_ridders2(f, x, h), 1, "Ridders' method of second degree"); dsame(th::deriv(g, x * u, h * u), th::deriv(f, x, h), 1, "derivative"); dsame(th::deriv2(g, x * u, h * u), th::deriv2(f, x, h), 2, "second difference"); dsame(th::deriv_ridders(g, x * u, h * u, dg), th::deriv_ridders(f, x, h, dg), 1, "Ridders' method");
	// a negative step exchanges forward and backward
	t.close(th::deriv_forward(f, x, -h), th::deriv_backward(f, x, h), e, "forward difference with a negative step"); t.close(th::deriv_central(f, x, -h), th::deriv_central(f, x, h), e, "central difference with a negative step"); t.close(th::deriv2(f, x, -h), th::deriv2(f, x, h), e / h * 4, "second difference with a negative step");
}

// Integrals up to infinity in other units
LAW(improper_units, 4000) {
	const real u = std::ldexp(1.0, (int) t.i(-20, 20)), c = std::ldexp(1.0, (int) t.i(-20, 20)); ld k = t.r(0.6, 3); real a = (real) t.r(-1, 3), step = (real) t.r(0.5, 2), tol = (real) t.rlog(-9, -5); NOTE(u); NOTE(c); NOTE((double) k); NOTE(a); NOTE(step); NOTE(tol); t.nontrivial(u != 1 || c != 1);
	auto f = [&](real y) { return (real) (expl(-k * y)); }; auto g = [&](real y) { return f(y / u) * c; }; ld base = th::integral_inf_riemann(f, a, step, tol); t.close((ld) th::integral_inf_riemann(g, a * u, step * u, tol * u * c) / u / c, base, 1e-13L * (1 + fabsl(base)), "integral up to infinity in other units"); t.close(base, expl(-k * a) / k, tol / (expl(k * step) - 1) + 200 * tol, "integral up to infinity to a tolerance");
	unsigned need = 0; ld x = a, dl; do { x += step; dl = (expl(-k * x) - expl(-k * (x + step))) / k; ++need; } while (dl > tol && need < 1000); unsigned cap = (unsigned) t.n(1, 30); NOTE(cap); int err; double v = with_errno(err, [&] { return (double) th::integral_inf_riemann(f, a, step, tol, cap); }); if (need + 2 < cap) t.close(v, expl(-k * a) / k, tol / (expl(k * step) - 1) + 200 * tol, "convergence within the iterations"); if (need > cap + 2) { t.is_nan(v, "too few iterations"); t.check(err != 0, "too few iterations are reported"); }
}

// Many steps, a single step, negative increments
LAW(many_steps, 60) {
	unsigned n = (unsigned) (t.coin() ? t.n(4000, 20000) : t.n(65000, 140000)); ld a = (real) t.r(-3, 3), b = (real) t.r(-3, 3), k = (real) t.rnz(-2, 2), c = (real) t.r(-2, 2); NOTE(n); t.note("a", a); t.note("b", b); t.note("k", k); t.note("c", c); t.nontrivial(); auto f = [&](real x) { return (real) (k * x + c); }; ld w = k * (b * b - a * a) / 2 + c * (b - a), sc = (fabsl(k) * 3 + fabsl(c)) * fabsl(b - a); t.close(th::integral_midpoint(f, (real) a, (real) b, n), w, 1e-16L * n * sc + 1e-13L * sc, "midpoint rule"); t.close(th::integral_trapezoid(f, (real) a, (real) b, n), w, 1e-16L * n * sc + 1e-13L * sc, "trapezoid rule"); t.close(th::integral_simpson(f, (real) a, (real) b, n), w, 1e-16L * n * sc + 1e-13L * sc, "Simpson rule");
	// the contribution of the ends: only there does the function differ from zero
	auto e = [&](real x) { return (real) ((x == (real) a || x == (real) b) ? 1 : 0); }; ld dx = (b - a) / n; if (a != b) { t.close(th::integral_trapezoid(e, (real) a, (real) b, n), dx, 1e-12L * fabsl(dx), "weight of the ends in the trapezoid rule"); unsigned ne = n + n % 2; t.close(th::integral_simpson(e, (real) a, (real) b, ne), 2 * (b - a) / ne / 3, 1e-12L * fabsl(dx), "weight of the ends in the Simpson rule"); }
}
LAW(single_steps_and_negative_increments, 20000) {
	L p = rnd(t, (int) t.n(0, 4)); ld a = (real) t.r(-3, 3), b = (real) t.r(-3, 3), x = (real) t.r(-40, 40); double h = t.rlogs(-4, -1); t.note("p", str(p)); t.note("a", a); t.note("b", b); t.note("x", x); NOTE(h); t.nontrivial(h < 0); auto f = [&](real y) { return (real) ev(p, y); }; ld m = mag(p, std::max(fabsl(a), fabsl(b))) * fabsl(b - a); t.close(th::integral_romberg(f, (real) a, (real) b, 1), (ev(p, a) + ev(p, b)) * (b - a) / 2, 1e-14L * m, "one step of the Romberg method is the trapezoid rule"); t.close(th::integral_trapezoid(f, (real) a, (real) b, 1), (ev(p, a) + ev(p, b)) * (b - a) / 2, 1e-14L * m, "one trapezoid"); t.close(th::integral_midpoint(f, (real) a, (real) b, 1), ev(p, (a + b) / 2) * (b - a), 1e-14L * m, "one midpoint"); t.close(th::integral_romberg(f, (real) a, (real) b, 2), ((ev(p, a) + ev(p, b)) + 4 * ev(p, (a + b) / 2)) * (b - a) / 6, 2e-14L * m, "two steps of the Romberg method are the Simpson rule");
	// increments of either sign sample the function on the named side
	real X = (real) x, H = (real) h; ld e = 4e-16L * mag(p, fabsl(x) + 1) / fabsl(h) * 8; t.close(th::deriv_forward(f, X, H), ((ld) f(X + H) - (ld) f(X)) / h, e, "forward difference"); t.close(th::deriv_backward(f, X, H), ((ld) f(X) - (ld) f(X - H)) / h, e, "backward difference"); t.close(th::deriv_central(f, X, H), ((ld) f(X + H) - (ld) f(X - H)) / (2 * (ld) h), e, "central difference"); t.close(th::deriv2(f, X, H), ((ld) f(X + H) - 2 * (ld) f(X) + (ld) f(X - H)) / ((ld) h * h), e / fabsl(h) * 4, "second difference");
}
// Expansions of functions in any unit, around any point
LAW(taylor_units, 20000) {
	double u = std::ldexp(1.0, (int) t.i(-60, 60)), x0 = (t.coin() ? t.rlogs(-3, 4) : t.r(-30, 30)), A = t.r(-3, 3), B = t.rnz(-3, 3), C = t.rnz(-3, 3); NOTE(u); NOTE(x0); NOTE(A); NOTE(B); NOTE(C); t.nontrivial(); auto l = th::taylor::expand_linear([&](th::dual x) { return (x * x * C + x * B + A) * u; }, (real) x0); auto q = th::taylor::expand_quadratic([&](th::dual2 x) { return (x * x * C + x * B + A) * u; }, (real) x0); ld X = x0, sc = (fabsl(C) * X * X * 4 + fabsl(B * X) * 2 + fabsl(A)) * u, s1 = (fabsl(C * X) * 6 + fabsl(B)) * u;
	t.eq((size_t) l.size(), (size_t) 2, "size of the linear expansion"); t.close(l[0], (A - C * X * X) * u, 4e-15L * sc, "linear expansion, constant term"); t.close(l[1], (2 * C * X + B) * u, 4e-15L * s1, "linear expansion, slope"); t.eq((size_t) q.size(), (size_t) 3, "size of the quadratic expansion"); t.close(q[0], A * (ld) u, 4e-15L * sc, "quadratic expansion, constant term"); t.close(q[1], B * (ld) u, 4e-15L * s1, "quadratic expansion, slope"); t.close(q[2], C * (ld) u, 4e-15L * fabsl(C) * u, "quadratic expansion, curvature");
}
