// C12: second order automatic differentiation
#include "jets.hpp"
using namespace pbt;
using jets::J;
typedef th::dual2 D2;
static double point(T& t) { return t.chance(1, 4) ? (double) t.i(-3, 3) : t.r(-4, 4); }
// a reference jet in one variable s with given first and second derivative
static J mk(double v, double d, double d2) { J j(v, 1); j.g[0] = d; j.h[0] = d2; return j; }
static void is(T& t, const D2& d, const J& w, ld tol, const char* m, ld vtol = 0) {
	t.close(d.a, w.v, std::max(tol, vtol) * (1 + fabsl(w.v)), std::string(m) + ": value"); t.close(d.b, w.g[0], tol * (1 + w.size()), std::string(m) + ": first derivative"); t.close(d.c, w.h[0], tol * (1 + w.size()), std::string(m) + ": second derivative");
}

LAW(elementary_functions, 80000) {
	int f = (int) t.i(0, NUNARY - 1), n = (int) t.i(-4, 6); double x = point(t), d = t.chance(1, 4) ? (double) t.i(-1, 1) : t.r(-3, 3), d2 = t.chance(1, 4) ? (double) t.i(-1, 1) : t.r(-3, 3);
	if (!safe(f, n, x)) t.discard();
	t.note("function", std::string(UNARY[f])); NOTE(n); NOTE(x); NOTE(d); NOTE(d2); t.nontrivial(d != 0 || d2 != 0); t.label(UNARY[f]);
	J w = unary(f, n, mk(x, d, d2)); if (!(w.size() < 1e8)) t.discard();
	is(t, unary(f, n, D2(x, d, d2)), w, 1e-12, UNARY[f], f >= 13 && f <= 15 ? 4e-8L : 0); // the arcs of real numbers are approximate
}

LAW(arithmetic, 60000) {
	double v[6]; for (double& x : v) x = t.chance(1, 4) ? (double) t.i(-2, 2) : t.r(-3, 3);
	J a = mk(v[0], v[1], v[2]), b = mk(v[3], v[4], v[5]); Op o; o.kind = (int) t.i(1, 20); o.i = 0; o.j = t.chance(1, 6) ? 0 : 1; o.n = 1; o.f = 0; o.k = t.chance(1, 2) ? (double) t.i(-3, 3) : t.r(-3, 3);
	const J& den = o.j ? b : a;
	if (((o.kind == 4 || o.kind == 8) && fabsl(den.v) < 0.2) || ((o.kind == 12 || o.kind == 20) && std::fabs(o.k) < 0.2) || (o.kind == 16 && fabsl(a.v) < 0.2)) t.discard();
	t.note("operation", prog_str({o})); t.note("operands", dvec(v, v + 6)); t.nontrivial();
	std::vector<J> r = {a, b}; step(r, o); std::vector<D2> d = {D2(v[0], v[1], v[2]), D2(v[3], v[4], v[5])}; step(d, o); is(t, d[0], r[0], 1e-11, "dual2");
	t.check(d[1].a == v[3] && d[1].b == v[4] && d[1].c == v[5], "the other operand is unchanged");
	D2 x(v[0], v[1], v[2]); D2 c = x.conjugate(); t.check(c.a == x.a && c.b == -x.b && c.c == -x.c && x.Re() == v[0] && x.Dual1() == v[1] && x.Dual2() == v[2], "parts and conjugate");
}

static Prog FP;
template<typename V> static D2 fld(V v) { return run(FP, std::vector<D2>{v[0], v[1], v[2]}); }

LAW(composed_expressions, 80000) {
	size_t n = 3; std::vector<J> r; for (size_t i = 0; i < n; ++i) r.push_back(J::var(point(t), n, i));
	FP.clear(); J w = gen_prog(t, FP, r, t.n(1, 8)); t.note("program", prog_str(FP)); t.note("point", dvec{(double) r[0].v, (double) r[1].v, (double) r[2].v}); t.nontrivial(FP.size() > 1);
	double x[3]; for (int i = 0; i < 3; ++i) x[i] = (double) r[i].v; const ld e = 1e-9 * (1 + w.size()); ld lap = 0;
	for (int k = 0; k < 3; ++k) {
		D2 y = run(FP, std::vector<D2>{D2(x[0], k == 0, 0), D2(x[1], k == 1, 0), D2(x[2], k == 2, 0)});
		t.close(y.a, w.v, 1e-11 * (1 + fabsl(w.v)), "value"); t.close(y.b, w.g[k], e, "first derivative"); t.close(y.c, w.h[k * 3 + k], e, "second derivative"); lap += w.h[k * 3 + k];
	}
	auto f = [&](D2 y) { return run(FP, std::vector<D2>{y, D2(x[1]), D2(x[2])}); };
	t.close(th::autodiff::deriv2(f, x[0]), w.h[0], e, "deriv2"); t.close(th::autodiff::deriv2(f)(x[0]), w.h[0], e, "deriv2 function");
	dvec pt(x, x + 3);
	t.close(th::autodiff::laplacian<3>(fld<th::vec<D2, 3>>, stav<3>(pt)), lap, 3 * e, "laplacian"); t.close(th::autodiff::laplacian<0>(fld<th::vec<D2>>, dynv(pt)), lap, 3 * e, "dynamic laplacian"); t.close(th::autodiff::laplacian<3>(fld<th::vec<D2, 3>>)(stav<3>(pt)), lap, 3 * e, "laplacian function");
}

// Construction, assignment, parts, conjugates and conversions
LAW(parts_and_conversions, 20000) {
	double a = point(t), b = t.r(-3, 3), c = t.r(-3, 3), e = t.r(-3, 3); NOTE(a); NOTE(b); NOTE(c); NOTE(e); t.nontrivial(b != 0 && c != 0);
	auto is3 = [&](const D2& d, double x, double y, double z, const char* m) { t.eq((double) d.a, x, std::string(m) + ": real part"); t.eq((double) d.b, y, std::string(m) + ": first part"); t.eq((double) d.c, z, std::string(m) + ": second part"); };
	D2 z; is3(z, 0, 0, 0, "default constructor"); is3(D2(a), a, 0, 0, "from a real number"); is3(D2(a, b), a, b, 0, "from two numbers"); const D2 d(a, b, c); is3(d, a, b, c, "from three numbers"); th::vec3 v; v[0] = a; v[1] = b; v[2] = c; is3(D2(v), a, b, c, "from a vector"); z = v; is3(z, a, b, c, "assignment of a vector"); z = (real) e; is3(z, e, 0, 0, "assignment of a real number"); z = std::array<real, 3>{{(real) a, (real) b, (real) c}}; is3(z, a, b, c, "assignment of an array"); z = D2(e, e, e); z.from_vec(v); is3(z, a, b, c, "from_vec"); z = D2(); z = d; is3(z, a, b, c, "assignment");
	t.eq((double) d.Re(), a, "Re"); t.eq((double) d.Dual1(), b, "Dual1"); t.eq((double) d.Dual2(), c, "Dual2"); is3(d.conjugate(), a, -b, -c, "conjugate()"); is3(th::conjugate(d), a, -b, -c, "conjugate"); is3(+d, a, b, c, "identity"); is3(-d, -a, -b, -c, "opposite"); th::vec3 w = d.to_vec(); t.eq((double) w[0], a, "to_vec"); t.eq((double) w[1], b, "to_vec"); t.eq((double) w[2], c, "to_vec");
	D2 x(a, b, c), y(t.coin() ? a : e, t.coin() ? b : e, t.coin() ? c : e); t.eq(x == y, y.a == a && y.b == b && y.c == c, "equality"); t.check(x == d, "equality of equal numbers");
}

// Over the whole domain, with tangents in any unit, the error is relative to the condition of each derivative
LAW(whole_domain, 60000) {
	int f = (int) t.i(0, NUNARY - 1), n = (int) t.i(-4, 6); if (f >= 16 && f <= 18) t.discard(); double x = wide_point(t, f), u = t.coin() ? 1.0 : std::ldexp(1.0, (int) t.i(-60, 60)); t.note("function", std::string(UNARY[f])); NOTE(n); NOTE(x); NOTE(u); t.label(UNARY[f]);
	ld v[3], c[3]; conditions(f, n, x, v, c); for (int k = 0; k < 3; ++k) if (!(c[k] < 1e150L) || (c[k] < 1e-150L && c[k] != 0)) t.discard();
	double d = gen_factor(t, 3) * u, d2 = gen_factor(t, 3) * u * u; NOTE(d); NOTE(d2); t.nontrivial(d != 0); D2 r = unary(f, n, D2(x, d, d2)); const ld e = 1e-12L;
	t.close(r.a, v[0], e * c[0], "value"); t.close(r.b, v[1] * d, e * c[1] * std::fabs(d), "first derivative"); t.close(r.c, v[2] * d * d + v[1] * d2, e * (c[2] * d * d + c[1] * std::fabs(d2)), "second derivative");
}

// Operands in any units: the result scales with them
LAW(arithmetic_units, 60000) {
	const double U = std::ldexp(1.0, (int) t.i(-30, 30)), S1 = std::ldexp(1.0, (int) t.i(-60, 60)); Op o; o.kind = (int) t.i(1, 20); o.i = 0; o.j = t.chance(1, 6) ? 0 : 1; o.n = 1; o.f = 0; o.k = gen_factor(t, 3); const bool add = o.kind == 1 || o.kind == 2 || o.kind == 5 || o.kind == 6, kadd = o.kind == 9 || o.kind == 10 || o.kind == 13 || o.kind == 14 || o.kind == 17 || o.kind == 18, div = o.kind == 4 || o.kind == 8; const double S2 = add || o.j == 0 ? S1 : std::ldexp(1.0, (int) t.i(-60, 60)), SK = kadd ? S1 : std::ldexp(1.0, (int) t.i(-60, 60));
	double v[6]; for (double& x : v) x = gen_factor(t, 3); J a = mk(v[0], v[1], v[2]), b = mk(v[3], v[4], v[5]); const J& den = o.j ? b : a; if ((div && fabsl(den.v) < 1e-3) || ((o.kind == 12 || o.kind == 20) && std::fabs(o.k) < 1e-3) || (o.kind == 16 && fabsl(a.v) < 1e-3)) t.discard();
	double out = S1; if (o.kind == 3 || o.kind == 7) out = S1 * S2; if (div) out = S1 / S2; if (o.kind == 11 || o.kind == 15 || o.kind == 19) out = S1 * SK; if (o.kind == 12 || o.kind == 20) out = S1 / SK; if (o.kind == 16) out = SK / S1;
	t.note("operation", prog_str({o})); NOTE(U); NOTE(S1); NOTE(S2); NOTE(SK); t.note("operands", dvec(v, v + 6)); t.nontrivial();
	std::vector<J> r = {a, b}; step(r, o); const ld dv = std::max<ld>(1, 1 / std::max<ld>(fabsl(den.v), 1e-3L)), big = (1 + a.size()) * (1 + b.size()) * (1 + std::fabs(o.k)) * (o.kind == 12 || o.kind == 20 ? 1 / std::fabs(o.k) : 1) * (div || o.kind == 16 ? powl(std::max<ld>(dv, 1 / std::max<ld>(fabsl(a.v), 1e-3L)), 3) * 40 : 1);
	Op so = o; so.k = o.k * SK; std::vector<D2> d = {D2(v[0] * S1, v[1] * S1 * U, v[2] * S1 * U * U), D2(v[3] * S2, v[4] * S2 * U, v[5] * S2 * U * U)}; step(d, so);
	t.close(d[0].a, r[0].v * out, 1e-14L * (fabsl(r[0].v) + (add || kadd ? big : 0)) * out, "value"); t.close(d[0].b, r[0].g[0] * out * U, 1e-14L * big * out * U, "first derivative"); t.close(d[0].c, r[0].h[0] * out * U * U, 1e-14L * big * out * U * U, "second derivative");
}

// The laplacian of functions of many variables
static dvec QA, QB; static size_t QM;
static D2 quart(th::vec<D2> v) { const size_t n = v.size(); D2 r = 0.0; for (size_t i = 0; i < n; ++i) r += v[i] * square(v[(i + QM) % n]) * QA[i] + cube(v[i]) * QB[i]; return r; }
LAW(many_variables, 20000) {
	const size_t n = t.sz(1, 8, 40); QA = t.reals(n, -3, 3); QB = t.reals(n, -3, 3); QM = t.n(0, n - 1); dvec x = t.reals(n, -3, 3); if (t.chance(1, 3)) for (double& y : x) if (t.coin()) y = t.chance(1, 2) ? 0.0 : 1.0; NOTE(n); NOTE(QA); NOTE(QB); NOTE(QM); NOTE(x); t.nontrivial(n > 1); t.label_if(n > 8, "large");
	ld lap = 0; for (size_t i = 0; i < n; ++i) { lap += 6 * (ld) x[i] * QB[i] + (QM == 0 ? 6 : 2) * (ld) x[i] * QA[i]; } th::vec<real> xd = dynv(x);
	t.close(th::autodiff::laplacian<0>(quart, xd), lap, 1e-12L * 50 * n, "laplacian"); t.close(th::autodiff::laplacian<0>(quart)(xd), lap, 1e-12L * 50 * n, "laplacian function"); for (size_t i = 0; i < n; ++i) t.eq((double) xd[i], x[i], "the point is unchanged");
}

// The absolute value keeps the signs of both parts on each side, and is flat at zero
LAW(absolute_value, 10000) {
	double x = t.chance(1, 4) ? 0.0 : t.rlogs(-20, 10), b = t.r(-3, 3), c = t.r(-3, 3); NOTE(x); NOTE(b); NOTE(c); t.nontrivial(); double s = x > 0 ? 1 : x < 0 ? -1 : 0; D2 r = th::abs(D2(x, b, c)); t.eq((double) r.a, std::fabs(x), "value"); t.close(r.b, s * b, 0, "first derivative"); t.close(r.c, s * c, 0, "second derivative");
}
LAW(high_powers, 10000) {
	int n = (int) t.i(3, 200); double x = t.r(-1.05, 1.05), b = t.rnz(-3, 3), c = t.r(-3, 3); NOTE(n); NOTE(x); NOTE(b); NOTE(c); t.nontrivial(); if (std::fabs(x) < 0.2) t.discard(); ld p2 = powl((ld) x, n - 2), f1 = n * p2 * x, f2 = (ld) n * (n - 1) * p2; D2 r = th::pow(D2(x, b, c), n); t.approx(r.a, p2 * x * x, 1e-12L, 0, "value"); t.approx(r.b, f1 * b, 1e-12L, 0, "first derivative"); t.close(r.c, f2 * b * b + f1 * c, 1e-12L * (fabsl(f2 * b * b) + fabsl(f1 * c)), "second derivative");
}
