// C11: first order automatic differentiation
#include "jets.hpp"
using namespace pbt;
using jets::J;
typedef th::dual D;
template<unsigned N> using MD = th::multidual<N>;

static const ld TOL = 1e-11;
static ld VTOL = TOL; // the arcs of real numbers are approximate
static void is(T& t, const D& d, const J& w, const char* m) { t.close(d.a, w.v, VTOL * (1 + fabsl(w.v)), std::string(m) + ": value"); t.close(d.b, w.g[0], TOL * (1 + w.size()), std::string(m) + ": derivative"); }
template<unsigned N> static void is(T& t, const MD<N>& d, const J& w, const char* m) {
	t.close(d.a, w.v, VTOL * (1 + fabsl(w.v)), std::string(m) + ": value");
	if (d.v.size() == 0) { for (ld x : w.g) t.close(0, x, TOL, std::string(m) + ": no dual part"); return; }
	if (d.v.size() != w.g.size()) t.fail(std::string(m) + ": size of the dual part");
	for (size_t i = 0; i < w.g.size(); ++i) t.close(d.v[i], w.g[i], TOL * (1 + w.size()), std::string(m) + ": partial derivative " + std::to_string(i));
}
template<unsigned N> static MD<N> make(const J& j) { th::vec<real, N> v; v.resize(j.g.size()); for (size_t i = 0; i < j.g.size(); ++i) v[i] = (double) j.g[i]; return MD<N>((double) j.v, v); }
static double point(T& t) { return t.chance(1, 4) ? (double) t.i(-3, 3) : t.r(-4, 4); }

LAW(elementary_functions, 80000) {
	int f = (int) t.i(0, NUNARY - 1), n = (int) t.i(-4, 6); double x = point(t); if (f == 18 && t.coin()) x *= 300; if (f != 18 && !safe(f, n, x)) t.discard();
	J a(x, 3); for (auto& g : a.g) g = t.chance(1, 4) ? 0.0 : t.r(-3, 3); for (auto& g : a.g) g = (double) g;
	t.note("function", std::string(UNARY[f])); NOTE(n); NOTE(x); t.note("tangent", dvec(a.g.begin(), a.g.end())); t.nontrivial(a.g[0] != 0); t.label(UNARY[f]);
	J w = unary(f, n, a); if (!(w.size() < 1e8)) t.discard();
	VTOL = f >= 13 && f <= 15 ? 4e-8L : TOL; struct Back { ~Back() { VTOL = TOL; } } back;
	is(t, unary(f, n, D(x, (double) a.g[0])), w, "dual"); is(t, unary(f, n, make<3>(a)), w, "multidual of fixed size"); is(t, unary(f, n, make<0>(a)), w, "multidual of dynamic size");
}

LAW(arithmetic, 80000) {
	J a(point(t), 3), b(point(t), 3); for (auto* j : {&a, &b}) for (auto& g : j->g) g = t.chance(1, 4) ? (double) t.i(-2, 2) : t.r(-3, 3);
	Op o; o.kind = (int) t.i(1, 20); o.i = 0; o.j = t.chance(1, 6) ? 0 : 1; o.n = 1; o.f = 0; o.k = t.chance(1, 2) ? (double) t.i(-3, 3) : t.r(-3, 3);
	if (t.chance(1, 6)) a.v = 0;
	const J& den = o.j ? b : a;
	if ((o.kind == 4 || o.kind == 8) && fabsl(den.v) < 0.2) t.discard();
	if ((o.kind == 12 || o.kind == 20) && std::fabs(o.k) < 0.2) t.discard();
	if (o.kind == 16 && fabsl(a.v) < 0.2) t.discard();
	t.note("operation", prog_str({o})); t.note("a", dvec{(double) a.v, (double) a.g[0], (double) a.g[1], (double) a.g[2]}); t.note("b", dvec{(double) b.v, (double) b.g[0], (double) b.g[1], (double) b.g[2]}); t.nontrivial();
	std::vector<J> r = {a, b}; step(r, o);
	std::vector<D> d = {D((double) a.v, (double) a.g[0]), D((double) b.v, (double) b.g[0])}; step(d, o); is(t, d[0], r[0], "dual");
	t.check(d[1].a == (double) b.v && d[1].b == (double) b.g[0], "the other operand is unchanged");
	std::vector<MD<3>> s = {make<3>(a), make<3>(b)}; step(s, o); is(t, s[0], r[0], "multidual of fixed size");
	std::vector<MD<0>> y = {make<0>(a), make<0>(b)}; step(y, o); is(t, y[0], r[0], "multidual of dynamic size");
	// real constants mix with dual numbers
	J c((double) b.v, 3); r = {a, c}; step(r, o); std::vector<MD<0>> z = {make<0>(a), MD<0>((double) b.v)}; step(z, o); is(t, z[0], r[0], "constant on the right");
	if (o.j == 1) { J e((double) a.v, 3); r = {e, b}; step(r, o); std::vector<MD<0>> q = {MD<0>((double) a.v), make<0>(b)}; step(q, o); is(t, q[0], r[0], "constant on the left"); }
	D x((double) a.v, (double) a.g[0]); t.check(x.conjugate().b == -x.b && x.conjugate().a == x.a && x.Re() == x.a && x.Dual() == x.b, "parts and conjugate");
	if (a.v == 0) { int err; D q = with_errno(err, [&] { return x.inverse(); }); t.check(std::isnan(q.a) && err, "the inverse of a dual number with null real part"); MD<0> mq = with_errno(err, [&] { return make<0>(b) / make<0>(a); }); t.check(std::isnan(mq.a) && err, "division by a multidual with null real part"); }
}

LAW(composed_expressions, 80000) {
	size_t n = 3; std::vector<J> r; for (size_t i = 0; i < n; ++i) r.push_back(J::var(point(t), n, i));
	Prog p; J w = gen_prog(t, p, r, t.n(1, 9)); t.note("program", prog_str(p)); t.note("point", dvec{(double) r[0].v, (double) r[1].v, (double) r[2].v}); t.nontrivial(p.size() > 1);
	th::vec<real> x(3); for (size_t i = 0; i < n; ++i) x[i] = (double) r[i].v;
	// partial derivatives through dual numbers
	for (size_t k = 0; k < n; ++k) { std::vector<D> d; for (size_t i = 0; i < n; ++i) d.push_back(D(x[i], i == k)); D y = run(p, d); t.close(y.a, w.v, 1e-11 * (1 + fabsl(w.v)), "value"); t.close(y.b, w.g[k], 1e-7 * 2e3, "derivative (coarse)"); t.close(y.b, w.g[k], 1e-10 * (1 + w.size()), "derivative"); }
	auto fs = [&](th::vec<MD<3>, 3> v) { return run(p, std::vector<MD<3>>{v[0], v[1], v[2]}); };
	auto fd = [&](th::vec<MD<0>> v) { return run(p, std::vector<MD<0>>{v[0], v[1], v[2]}); };
	std::function<MD<3>(th::vec<MD<3>, 3>)> ff = fs; std::function<MD<0>(th::vec<MD<0>>)> fg = fd;
	th::vec<real, 3> xs = {x[0], x[1], x[2]};
	auto g1 = th::autodiff::gradient(ff, xs); auto g2 = th::autodiff::gradient(fg, x); auto g3 = th::autodiff::gradient(ff)(xs); auto g4 = th::autodiff::gradient(fg)(x); ld div = 0;
	for (size_t k = 0; k < n; ++k) { const ld e = 1e-10 * (1 + w.size()); t.close(g1[k], w.g[k], e, "gradient"); t.close(g2[k], w.g[k], e, "dynamic gradient"); t.close(g3[k], w.g[k], e, "gradient function"); t.close(g4[k], w.g[k], e, "dynamic gradient function"); div += w.g[k]; }
	t.close(th::autodiff::divergence(ff, xs), div, 1e-10 * (1 + w.size()), "divergence"); t.close(th::autodiff::divergence(fg, x), div, 1e-10 * (1 + w.size()), "dynamic divergence"); t.close(th::autodiff::divergence(ff)(xs), div, 1e-10 * (1 + w.size()), "divergence function");
	// univariate operators: the other registers are constants
	double c1 = x[1], c2 = x[2]; auto f1 = [&](D y) { return run(p, std::vector<D>{y, D(c1), D(c2)}); };
	t.close(th::autodiff::deriv(f1, x[0]), w.g[0], 1e-10 * (1 + w.size()), "deriv"); t.close(th::autodiff::deriv(f1)(x[0]), w.g[0], 1e-10 * (1 + w.size()), "deriv function");
}

// Vector fields passed as function pointers, with generated programs for each component
static Prog FP[3];
template<typename X, typename V> static V field(V v) { V r; r.resize(v.size()); for (int i = 0; i < 3; ++i) { std::vector<X> a = {v[i], v[(i + 1) % 3], v[(i + 2) % 3]}; r[i] = run(FP[i], a); } return r; }
template<typename X, typename V> static X scalar0(V v) { std::vector<X> a = {v[0], v[1], v[2]}; return run(FP[0], a); }
template<typename X, typename V> static X ham(V v) { return v[0] * v[3] - sin(v[1]) * v[2] + square(v[2]) * 0.5 + v[3] * v[1] * v[0]; }
template<typename X, typename V> static X obs(V v) { return v[0] * v[0] * v[2] + v[1] * exp(v[3] * 0.3) - v[2] * v[3]; }

LAW(vector_operators, 50000) {
	size_t n = 3; dvec pt = {point(t), point(t), point(t)}; std::vector<J> w(3); ld top = 1;
	for (int i = 0; i < 3; ++i) {
		std::vector<J> r; for (int k = 0; k < 3; ++k) { int v = (i + k) % 3; r.push_back(J::var(pt[v], n, v)); }
		FP[i].clear(); w[i] = gen_prog(t, FP[i], r, t.n(1, 4)); t.note("component", prog_str(FP[i])); top = std::max(top, w[i].size());
		if (FP[i].empty()) FP[i].push_back({3, 0, 1, 0, 0, 0}), w[i] = r[0] * r[1];
	}
	NOTE(pt); t.nontrivial(); const ld e = 1e-10 * (1 + top);
	typedef th::vec<MD<3>, 3> VS; typedef th::vec<MD<0>> VD; th::vec<real, 3> xs = stav<3>(pt); th::vec<real> xd = dynv(pt);
	auto JS = th::autodiff::jacobian<3, 3>(field<MD<3>, VS>, xs); auto JD = th::autodiff::jacobian<0, 0>(field<MD<0>, VD>, xd); auto JF = th::autodiff::jacobian<3, 3>(field<MD<3>, VS>)(xs);
	if (JD.rows() != 3 || JD.cols() != 3) t.fail("shape of the jacobian");
	for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { t.close(JS(i, k), w[i].g[k], e, "jacobian"); t.close(JF(i, k), w[i].g[k], e, "jacobian function"); if (field<MD<0>, VD>(MD<0>::make_argument(xd))[i].v.size()) t.close(JD(i, k), w[i].g[k], e, "dynamic jacobian"); }
	ld cu[3] = {w[2].g[1] - w[1].g[2], w[0].g[2] - w[2].g[0], w[1].g[0] - w[0].g[1]};
	auto CS = th::autodiff::curl<3>(field<MD<3>, VS>, xs); auto CD = th::autodiff::curl<0>(field<MD<0>, VD>, xd); auto CF = th::autodiff::curl<3>(field<MD<3>, VS>)(xs);
	for (int i = 0; i < 3; ++i) { t.close(CS[i], cu[i], 2 * e, "curl"); t.close(CF[i], cu[i], 2 * e, "curl function"); t.close(CD[i], cu[i], 2 * e, "dynamic curl"); }
	dvec dir = t.reals(3, -2, 2); NOTE(dir); ld dd = 0; for (int i = 0; i < 3; ++i) dd += dir[i] * w[0].g[i];
	auto DS = th::autodiff::directional_derivative<3>(scalar0<MD<3>, VS>, xs, stav<3>(dir)); auto DF = th::autodiff::directional_derivative<3>(scalar0<MD<3>, VS>, stav<3>(dir))(xs);
	for (int i = 0; i < 3; ++i) { t.close(DS[i], dir[i] * dd, 20 * e, "directional derivative"); t.close(DF[i], dir[i] * dd, 20 * e, "directional derivative function"); }
	// extraction of values and jacobian from a vector of multiduals
	th::vec<real> ex; th::mat<real> EJ; VD arg = field<MD<0>, VD>(MD<0>::make_argument(xd)); bool full = true; for (int i = 0; i < 3; ++i) full = full && arg[i].v.size() == 3;
	if (full) { MD<0>::extract(arg, ex, EJ); auto er = MD<0>::extract_real(arg); auto ed = MD<0>::extract_dual(arg); for (int i = 0; i < 3; ++i) { t.close(ex[i], w[i].v, e, "extract"); t.close(er[i], w[i].v, e, "extract_real"); for (int k = 0; k < 3; ++k) { t.close(EJ(i, k), w[i].g[k], e, "extract"); t.close(ed(i, k), w[i].g[k], e, "extract_dual"); } } }
	VS sarg = field<MD<3>, VS>(MD<3>::make_argument(xs)); auto sd = MD<3>::extract_dual(sarg); auto sr = MD<3>::extract_real(sarg); for (int i = 0; i < 3; ++i) { t.close(sr[i], w[i].v, e, "static extract_real"); for (int k = 0; k < 3; ++k) t.close(sd(i, k), w[i].g[k], e, "static extract_dual"); }
	// Poisson bracket of two functions on a phase space with two degrees of freedom
	dvec q = t.reals(4, -2, 2); NOTE(q); std::vector<J> v; for (int i = 0; i < 4; ++i) v.push_back(J::var(q[i], 4, i)); J h = ham<J>(v), f = obs<J>(v);
	ld pb = f.g[0] * h.g[2] + f.g[1] * h.g[3] - f.g[2] * h.g[0] - f.g[3] * h.g[1];
	typedef th::vec<MD<4>, 4> V4; t.close(th::autodiff::sturm_liouville<4>(obs<MD<4>, V4>, ham<MD<4>, V4>, stav<4>(q)), pb, 1e-9 * (1 + fabsl(pb)) * 10, "sturm_liouville"); t.close(th::autodiff::sturm_liouville<0>(obs<MD<0>, VD>, ham<MD<0>, VD>, dynv(q)), pb, 1e-8 * (1 + fabsl(pb)), "dynamic sturm_liouville");
}

// Construction, assignment, parts, conjugates and conversions
LAW(parts_and_conversions, 20000) {
	double a = point(t), b = t.r(-3, 3), c = t.r(-3, 3), e = t.chance(1, 3) ? b : t.r(-3, 3); NOTE(a); NOTE(b); NOTE(c); NOTE(e); t.nontrivial(b != 0);
	auto is2 = [&](const D& d, double x, double y, const char* m) { t.eq((double) d.a, x, std::string(m) + ": real part"); t.eq((double) d.b, y, std::string(m) + ": dual part"); };
	D z; is2(z, 0, 0, "default constructor"); is2(D(a), a, 0, "from a real number"); const D d(a, b); is2(d, a, b, "from two numbers"); th::vec2 v; v[0] = a; v[1] = b; is2(D(v), a, b, "from a vector"); z = v; is2(z, a, b, "assignment of a vector"); z = (real) c; is2(z, c, 0, "assignment of a real number"); z = std::array<real, 2>{{(real) a, (real) b}}; is2(z, a, b, "assignment of an array"); z = D(c, c); z.from_vec(v); is2(z, a, b, "from_vec"); z = d; is2(z, a, b, "assignment");
	t.eq((double) d.Re(), a, "Re"); t.eq((double) d.Dual(), b, "Dual"); t.eq((double) Re(d), a, "Re of a dual number"); t.eq((double) Dual(d), b, "Dual of a dual number"); Re(z) = c; Dual(z) = a; is2(z, c, a, "writing the parts"); z.Re() = a; z.Dual() = c; is2(z, a, c, "writing the parts by methods");
	is2(d.conjugate(), a, -b, "conjugate()"); is2(th::conjugate(d), a, -b, "conjugate"); is2(+d, a, b, "identity"); is2(-d, -a, -b, "opposite"); th::vec2 w = d.to_vec(); t.eq((double) w[0], a, "to_vec"); t.eq((double) w[1], b, "to_vec");
	// matrices [a b; 0 a] multiply as dual numbers
	D f(c, e); th::mat2 m = d.to_mat(), p = f.to_mat(), q = m * p; D g = d * f; t.close(q(0, 0), g.a, 1e-13, "product of matrix forms"); t.close(q(0, 1), g.b, 1e-13, "product of matrix forms"); t.close(q(1, 0), 0, 0, "product of matrix forms"); t.close(q(1, 1), g.a, 1e-13, "product of matrix forms"); t.eq((double) m(0, 0), a, "matrix form"); t.eq((double) m(0, 1), b, "matrix form");
	D x(a, b), y(t.coin() ? a : c, t.coin() ? b : e); t.eq(x == y, y.a == a && y.b == b, "equality of dual numbers"); t.check(x == d, "equality of equal dual numbers");
	if (t.coin()) {
		typedef MD<3> M; th::vec<real, 3> u; u[0] = b; u[1] = c; u[2] = e; const M n(a, u); M k; auto isn = [&](const M& h, double r, double s, double i, double j, const char* msg) { t.eq((double) h.Re(), r, std::string(msg) + ": real part"); t.eq((double) h.Dual()[0], s, msg); t.eq((double) h.Dual()[1], i, msg); t.eq((double) h.Dual()[2], j, msg); };
		isn(k, 0, 0, 0, 0, "default multidual"); isn(M(a), a, 0, 0, 0, "multidual of a real number"); isn(n, a, b, c, e, "multidual"); k = n; k = (real) c; isn(k, c, 0, 0, 0, "assignment of a real number"); k = n; isn(k, a, b, c, e, "assignment"); isn(n.conjugate(), a, -b, -c, -e, "conjugate()"); isn(th::conjugate(n), a, -b, -c, -e, "conjugate"); isn(+n, a, b, c, e, "identity"); isn(-n, -a, -b, -c, -e, "opposite"); t.eq(n.size(), 3u, "number of variables"); k.Re() = e; k.Dual()[1] = a; isn(k, e, b, a, e, "writing the parts");
		M o = n; t.check(o == n, "equality of equal multidual numbers"); size_t l = t.n(0, 3); if (l == 3) o.a += 1; else o.v[l] += 1; t.check(!(o == n), "equality of different multidual numbers");
	} else {
		typedef MD<0> M; size_t n = t.n(1, 5); M k((real) a); k.resize((unsigned) n); t.eq(k.size(), (unsigned) n, "number of variables after resizing"); t.eq((double) k.Re(), a, "real part after resizing"); for (size_t i = 0; i < n; ++i) k.Dual()[i] = b + i; M o = k; t.check(o == k, "equality of equal multidual numbers"); size_t l = t.n(0, n); if (l == n) o.a += 1; else o.v[l] += 1; t.check(!(o == k), "equality of different multidual numbers"); M s = k.conjugate(), p2 = +k; for (size_t i = 0; i < n; ++i) { t.eq((double) s.v[i], -(b + i), "conjugate"); t.eq((double) p2.v[i], b + i, "identity"); } M z0; t.eq((double) z0.a, 0.0, "default multidual"); k = (real) c; t.eq((double) k.a, c, "assignment of a real number"); for (size_t i = 0; i < k.v.size(); ++i) t.eq((double) k.v[i], 0.0, "assignment of a real number");
		// vectors of variables and their parts
		th::vec<real> pt((unsigned) n); for (size_t i = 0; i < n; ++i) pt[i] = a + i; auto arg = M::make_argument(pt); auto re = M::extract_real(arg); auto du = M::extract_dual(arg); th::vec<real> re2; th::mat<real> du2; M::extract(arg, re2, du2); for (size_t i = 0; i < n; ++i) { t.eq((double) re[i], a + i, "extract_real"); t.eq((double) re2[i], a + i, "extract"); for (size_t j = 0; j < n; ++j) { t.eq((double) du(i, j), i == j ? 1.0 : 0.0, "extract_dual"); t.eq((double) du2(i, j), i == j ? 1.0 : 0.0, "extract"); } } size_t r = t.n(0, n - 1), s2 = t.n(0, n - 1); arg[r].v[s2] = 7; t.eq((double) M::extract_dual(arg)(r, s2), 7.0, "rows of the Jacobian are the components"); M::extract(arg, re2, du2); t.eq((double) du2(r, s2), 7.0, "rows of the Jacobian are the components");
	}
}

// Over the whole domain, with tangents in any unit, the error is relative to the condition of the derivative
LAW(whole_domain, 60000) {
	int f = (int) t.i(0, NUNARY - 1), n = (int) t.i(-4, 6); double x = wide_point(t, f), u = t.coin() ? 1.0 : std::ldexp(1.0, (int) t.i(-60, 60)); t.note("function", std::string(UNARY[f])); NOTE(n); NOTE(x); NOTE(u); t.label(UNARY[f]);
	ld v[3], c[3]; conditions(f, n, x, v, c); for (int k = 0; k < 2; ++k) if (!(c[k] < 1e150L)) t.discard();
	dvec g(3); for (double& y : g) y = gen_factor(t, 3) * u; NOTE(g); t.nontrivial(g[0] != 0);
	th::vec<real> w = dynv(g); th::vec<real, 3> ws = stav<3>(g); D d = unary(f, n, D(x, g[0])); MD<3> s = unary(f, n, MD<3>(x, ws)); MD<0> y = unary(f, n, MD<0>(x, w)); const ld e = 1e-12L;
	t.close(d.a, v[0], e * c[0], "dual: value"); t.close(s.a, v[0], e * c[0], "multidual: value"); t.close(y.a, v[0], e * c[0], "dynamic multidual: value"); t.close(d.b, v[1] * g[0], e * c[1] * std::fabs(g[0]), "dual: derivative");
	t.eq(y.v.size(), 3u, "number of variables"); for (int k = 0; k < 3; ++k) { t.close(s.v[k], v[1] * g[k], e * c[1] * std::fabs(g[k]), "multidual: derivative"); t.close(y.v[k], v[1] * g[k], e * c[1] * std::fabs(g[k]), "dynamic multidual: derivative"); }
}

// Operands in any units: the result scales with them
LAW(arithmetic_units, 60000) {
	const double U = std::ldexp(1.0, (int) t.i(-60, 60)), S1 = std::ldexp(1.0, (int) t.i(-60, 60)); Op o; o.kind = (int) t.i(1, 20); o.i = 0; o.j = t.chance(1, 6) ? 0 : 1; o.n = 1; o.f = 0; o.k = gen_factor(t, 3); bool add = o.kind == 1 || o.kind == 2 || o.kind == 5 || o.kind == 6; const bool kadd = o.kind == 9 || o.kind == 10 || o.kind == 13 || o.kind == 14 || o.kind == 17 || o.kind == 18; const double S2 = add || o.j == 0 ? S1 : std::ldexp(1.0, (int) t.i(-60, 60)), SK = kadd ? S1 : std::ldexp(1.0, (int) t.i(o.kind == 20 ? -30 : -60, 60)); // vectors refuse divisors below the machine epsilon
	J a(gen_factor(t, 3), 3), b(gen_factor(t, 3), 3); for (auto* j : {&a, &b}) for (auto& g : j->g) g = (double) gen_factor(t, 3);
	const J& den = o.j ? b : a; bool div = o.kind == 4 || o.kind == 8; if ((div && fabsl(den.v) < 1e-3) || (o.kind == 12 || o.kind == 20 ? std::fabs(o.k) < 1e-3 : false) || (o.kind == 16 && fabsl(a.v) < 1e-3)) t.discard();
	double out = S1; if (o.kind == 3 || o.kind == 7) out = S1 * S2; if (div) out = S1 / S2; if (o.kind == 11 || o.kind == 15 || o.kind == 19) out = S1 * SK; if (o.kind == 12 || o.kind == 20) out = S1 / SK; if (o.kind == 16) out = SK / S1;
	t.note("operation", prog_str({o})); NOTE(U); NOTE(S1); NOTE(S2); NOTE(SK); t.note("a", dvec{(double) a.v, (double) a.g[0], (double) a.g[1], (double) a.g[2]}); t.note("b", dvec{(double) b.v, (double) b.g[0], (double) b.g[1], (double) b.g[2]}); t.nontrivial();
	std::vector<J> r = {a, b}; step(r, o); std::vector<J> m = r; // size of the terms
	{ J p = a, q = b; for (auto* j : {&p, &q}) { j->v = fabsl(j->v); for (auto& g : j->g) g = fabsl(g); } Op w = o; w.k = std::fabs(o.k); if (o.kind == 2 || o.kind == 6) w.kind = 1; if (o.kind == 10 || o.kind == 14 || o.kind == 18) w.kind = 9; if (o.kind == 4 || o.kind == 8 || o.kind == 16) { m[0] = r[0]; const J& num = o.kind == 16 ? J(w.k, 3) : p; const J& dn = o.kind == 16 || !o.j ? p : q; for (int k = 0; k < 3; ++k) m[0].g[k] = num.g[k] / dn.v + num.v * dn.g[k] / (dn.v * dn.v); } else { m = {p, q}; step(m, w); } }
	const bool unit_sub = add || kadd; (void) unit_sub; J sa = a, sb = b; sa.v *= S1; sb.v *= S2; for (auto& g : sa.g) g *= S1 * (ld) U; for (auto& g : sb.g) g *= S2 * (ld) U; Op so = o; so.k = o.k * SK;
	auto chk = [&](double got_v, const std::vector<double>& got, const char* msg) { t.close(got_v, r[0].v * out, 1e-14L * fabsl(m[0].v) * out, std::string(msg) + ": value"); for (size_t k = 0; k < got.size(); ++k) t.close(got[k], r[0].g[k] * out * U, 1e-13L * fabsl(m[0].g[k]) * out * U, std::string(msg) + ": derivative"); };
	std::vector<D> d = {D((double) sa.v, (double) sa.g[0]), D((double) sb.v, (double) sb.g[0])}; step(d, so); chk(d[0].a, {(double) d[0].b}, "dual");
	std::vector<MD<3>> s = {make<3>(sa), make<3>(sb)}; step(s, so); chk(s[0].a, {(double) s[0].v[0], (double) s[0].v[1], (double) s[0].v[2]}, "multidual");
	std::vector<MD<0>> y = {make<0>(sa), make<0>(sb)}; step(y, so); t.eq(y[0].v.size(), 3u, "number of variables"); chk(y[0].a, {(double) y[0].v[0], (double) y[0].v[1], (double) y[0].v[2]}, "dynamic multidual");
}

// Many variables: fields whose derivatives are known in closed form
static dvec QA, QB; static size_t QM;
template<typename X, typename V> static X quad(V v) { const size_t n = v.size(); X r = v[0] * 0.0; for (size_t i = 0; i < n; ++i) r += v[i] * v[(i + QM) % n] * QA[i] + v[i] * QB[i]; return r; } // sum a_i x_i x_(i+m) + b_i x_i
template<typename X, typename V> static X quad2(V v) { const size_t n = v.size(); X r = v[0] * 0.0; for (size_t i = 0; i < n; ++i) r += square(v[i]) * QB[i] - v[n - 1 - i] * QA[i]; return r; }
template<typename VO, typename X, typename V> static VO fieldmn(V v) { VO r; r.resize(QM); const size_t n = v.size(); for (size_t j = 0; j < QM; ++j) { r[j] = v[j % n] * v[(2 * j + 1) % n] * QA[j % n] + v[(j + 1) % n] * QB[j % n]; } return r; }

LAW(many_variables, 20000) {
	const size_t n = t.sz(1, 8, 40); QA = t.reals(n, -3, 3); QB = t.reals(n, -3, 3); QM = t.n(0, n - 1); dvec x = t.reals(n, -3, 3); if (t.chance(1, 3)) for (double& y : x) if (t.coin()) y = t.chance(1, 2) ? 0.0 : 1.0; NOTE(n); NOTE(QA); NOTE(QB); NOTE(QM); NOTE(x); t.nontrivial(n > 1); t.label_if(n > 8, "large");
	typedef th::vec<MD<0>> VD; th::vec<real> xd = dynv(x); const ld e = 1e-13L * 100 * n;
	std::vector<ld> g(n, 0), h(n, 0); for (size_t i = 0; i < n; ++i) { size_t j = (i + QM) % n; g[i] += (ld) x[j] * QA[i]; g[j] += (ld) x[i] * QA[i]; g[i] += QB[i]; h[i] += 2 * (ld) x[i] * QB[i]; h[n - 1 - i] -= QA[i]; }
	std::function<MD<0>(VD)> F = quad<MD<0>, VD>, H = quad2<MD<0>, VD>; th::vec<real> gr = th::autodiff::gradient(F, xd), gh = th::autodiff::gradient(H)(xd); t.eq(gr.size(), (unsigned) n, "number of partial derivatives"); ld div = 0, dd = 0;
	for (size_t i = 0; i < n; ++i) { t.close(gr[i], g[i], e, "gradient"); t.close(gh[i], h[i], e, "gradient function"); div += g[i]; }
	t.close(th::autodiff::divergence(F, xd), div, e * n, "divergence"); t.close(th::autodiff::divergence(F)(xd), div, e * n, "divergence function");
	dvec dir = t.reals(n, -2, 2); if (t.chance(1, 4)) dir[t.n(0, n - 1)] = 0; NOTE(dir); for (size_t i = 0; i < n; ++i) dd += dir[i] * g[i]; auto DV = th::autodiff::directional_derivative<0>(quad<MD<0>, VD>, xd, dynv(dir)); auto DF = th::autodiff::directional_derivative<0>(quad<MD<0>, VD>, dynv(dir))(xd); for (size_t i = 0; i < n; ++i) { t.close(DV[i], dir[i] * dd, e * n * 4, "directional derivative"); t.close(DF[i], dir[i] * dd, e * n * 4, "directional derivative function"); }
	if (n % 2 == 0) { ld pb = 0; size_t k = n / 2; for (size_t i = 0; i < k; ++i) pb += g[i] * h[i + k] - g[i + k] * h[i]; t.close(th::autodiff::sturm_liouville<0>(quad<MD<0>, VD>, quad2<MD<0>, VD>, xd), pb, e * 100 * n, "sturm_liouville"); }
	// jacobian of a field with another number of components
	const size_t m = QM = t.sz(1, 8, 40); NOTE(m); auto JD = th::autodiff::jacobian<0, 0>(fieldmn<VD, MD<0>, VD>, xd); auto JF = th::autodiff::jacobian<0, 0>(fieldmn<VD, MD<0>, VD>)(xd); t.check(JD.rows() == m && JD.cols() == n && JF.rows() == m && JF.cols() == n, "shape of the jacobian"); t.label_if(m != n, "rectangular");
	for (size_t j = 0; j < m; ++j) { std::vector<ld> w(n, 0); size_t p = j % n, q = (2 * j + 1) % n; w[p] += (ld) x[q] * QA[j % n]; w[q] += (ld) x[p] * QA[j % n]; w[(j + 1) % n] += QB[j % n]; for (size_t i = 0; i < n; ++i) { t.close(JD(j, i), w[i], e, "jacobian"); t.close(JF(j, i), w[i], e, "jacobian function"); } }
	dvec x2(2); x2[0] = x[0]; x2[1] = x[n - 1]; QA.resize(2, 0.5); QB.resize(2, -1); if (QA.size() < 2) QA.resize(2); QM = 4; auto S = th::autodiff::jacobian<2, 4>(fieldmn<th::vec<MD<2>, 4>, MD<2>, th::vec<MD<2>, 2>>, stav<2>(x2));
	for (size_t j = 0; j < 4; ++j) { std::vector<ld> w(2, 0); size_t p = j % 2, q = (2 * j + 1) % 2; w[p] += (ld) x2[q] * QA[p]; w[q] += (ld) x2[p] * QA[p]; w[(j + 1) % 2] += QB[p]; for (size_t i = 0; i < 2; ++i) t.close(S(j, i), w[i], 1e-12L * 20, "jacobian of fixed shape"); }
}

// Equality is exact in each part; many variables; high powers
LAW(exact_equality_and_high_powers, 20000) {
	double a = t.r(-3, 3), b = t.r(-3, 3), e = t.rlogs(-15, -6); NOTE(a); NOTE(b); NOTE(e); t.nontrivial(); D x(a, b), y(a, b); if (t.coin()) y.b += e; else y.a += e; t.eq(x == y, y.a == a && y.b == b, "equality of dual numbers is exact");
	int n = (int) t.i(7, 300); double base = t.r(-1.05, 1.05); J j(base, 3); for (auto& g : j.g) g = t.r(-3, 3); NOTE(n); NOTE(base); if (std::fabs(base) < 0.2) t.discard(); const ld v = powl((ld) base, n), d = n * powl((ld) base, n - 1); D p = th::pow(D(base, (double) j.g[0]), n); t.approx(p.a, v, 1e-12L, 0, "dual power: value"); t.approx(p.b, d * j.g[0], 1e-12L, 0, "dual power: derivative"); MD<3> m = th::pow(make<3>(j), n); MD<0> q = th::pow(make<0>(j), n); t.approx(m.a, v, 1e-12L, 0, "multidual power: value"); t.approx(q.a, v, 1e-12L, 0, "dynamic multidual power: value"); for (int k = 0; k < 3; ++k) { t.approx(m.v[k], d * j.g[k], 1e-12L, 0, "multidual power: derivative"); t.approx(q.v[k], d * j.g[k], 1e-12L, 0, "dynamic multidual power: derivative"); }
	if (t.chance(1, 4)) { typedef MD<0> M; size_t w = t.n(1, 20); dvec pt = t.reals(w, -4, 4); t.note("variables", w); auto arg = M::make_argument(dynv(pt)); for (size_t i = 0; i < w; ++i) for (size_t k = 0; k < w; ++k) arg[i].v[k] = (double) (i * w + k); auto du = M::extract_dual(arg); auto re = M::extract_real(arg); th::vec<real> r2; th::mat<real> d2; M::extract(arg, r2, d2); t.check(du.rows() == w && du.cols() == w && d2.rows() == w && d2.cols() == w && re.size() == w && r2.size() == w, "shape of the extracted parts"); for (size_t i = 0; i < w; ++i) { t.eq((double) re[i], pt[i], "extract_real"); t.eq((double) r2[i], pt[i], "extract"); for (size_t k = 0; k < w; ++k) { t.eq((double) du(i, k), (double) (i * w + k), "extract_dual"); t.eq((double) d2(i, k), (double) (i * w + k), "extract"); } } }
}
