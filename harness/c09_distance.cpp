// C09: norms and distances
#include "linref.hpp"
using namespace pbt;
namespace alg = th::algebra;

template<typename V> static void norms(T& t, const V& v, const std::vector<ld>& m, unsigned p) {
	ld s1 = 0, s2 = 0, sp = 0, top = 0; for (ld x : m) { s1 += x; s2 += x * x; sp += powl(x, p); top = std::max(top, x); }
	t.close(alg::l1_norm(v), s1, 1e-15L * (m.size() + 2) * s1, "l1_norm"); t.close(alg::l2_norm(v), sqrtl(s2), 1e-15L * (m.size() + 2) * s1, "l2_norm");
	t.close(alg::linf_norm(v), top, 1e-15L * s1, "linf_norm"); t.close(alg::lp_norm(v, p), powl(sp, 1.0L / p), 4e-8 * s1, "lp_norm");
}

LAW(norms_of_vectors, 40000) {
	size_t n = t.sz(1, 8, 70); double w = std::pow(10.0, (double) t.i(-3, 3)) * gen_unit(t); dvec v = t.reals(n, -w, w), u = t.reals(n, -w, w); unsigned p = (unsigned) t.i(1, 6);
	if (t.chance(1, 4)) for (auto& x : v) if (t.coin()) x = 0;
	NOTE(v); NOTE(p); t.nontrivial(n > 1);
	std::vector<ld> m; for (double x : v) m.push_back(fabsl(x));
	norms(t, dynv(v), m, p); if (n == 4) norms(t, stav<4>(v), m, p);
	th::vec<cplx> z(n); std::vector<ld> mz; for (size_t i = 0; i < n; ++i) { z[i] = cplx(v[i], u[i]); mz.push_back(sqrtl((ld) v[i]*v[i] + (ld) u[i]*u[i])); }
	norms(t, z, mz, p);
	// the norms are homogeneous, subadditive and ordered
	th::vec<real> a = dynv(v), b = dynv(u), c = a + b; double k = gen_factor(t, 4); th::vec<real> d = a * k; const ld s = 1e-14 * (w * n), sp = 4e-8 * (w * n);
	t.check(alg::l1_norm(c) <= alg::l1_norm(a) + alg::l1_norm(b) + s && alg::l2_norm(c) <= alg::l2_norm(a) + alg::l2_norm(b) + s && alg::linf_norm(c) <= alg::linf_norm(a) + alg::linf_norm(b) + s && alg::lp_norm(c, p) <= alg::lp_norm(a, p) + alg::lp_norm(b, p) + sp, "triangle inequality of the norms");
	t.close(alg::lp_norm(d, p), std::fabs(k) * alg::lp_norm(a, p), sp, "norms are homogeneous");
	t.check(alg::linf_norm(a) <= alg::l2_norm(a) + s && alg::l2_norm(a) <= alg::l1_norm(a) + s, "norms are ordered");
}

LAW(distances_of_vectors, 60000) {
	size_t n = t.sz(1, 8, 70); bool ints = t.coin(); const double un = gen_unit(t); auto gv = [&] { dvec v; for (size_t i = 0; i < n; ++i) v.push_back(un * (ints ? (double) t.i(-3, 3) : t.r(-10, 10))); return v; };
	dvec u = gv(), v = gv(), w = gv(); unsigned p = (unsigned) t.i(1, 5); if (t.chance(1, 6)) { v = u; t.label("equal vectors"); } if (t.chance(1, 8)) { double k = gen_factor(t, 3); for (size_t i = 0; i < n; ++i) v[i] = k * u[i]; t.label("parallel vectors"); } if (t.chance(1, 10)) { v = u; v[t.n(0, n - 1)] += un * t.rlogs(-4, 0); t.label("one different element"); }
	NOTE(u); NOTE(v); NOTE(p); t.nontrivial(u != v);
	ld s1 = 0, s2 = 0, sp = 0, top = 0, can = 0, dotp = 0, uu = 0, vv = 0; unsigned ham = 0;
	for (size_t i = 0; i < n; ++i) { ld d = fabsl((ld) u[i] - v[i]); s1 += d; s2 += d * d; sp += powl(d, p); top = std::max(top, d); if (u[i] != 0 || v[i] != 0) can += d / (fabsl(u[i]) + fabsl(v[i])); ham += std::fabs(u[i] - v[i]) > (double) th::MACH_EPSILON; dotp += (ld) u[i]*v[i]; uu += (ld) u[i]*u[i]; vv += (ld) v[i]*v[i]; }
	auto all = [&](const auto& a, const auto& b, const char* kind) {
		std::string k = kind; ld big = 0; for (size_t i = 0; i < n; ++i) big = std::max(big, (ld) std::max(std::fabs(u[i]), std::fabs(v[i]))); const ld e = 1e-15L * (n + 2) * (big + s1), thr = 1.5 * un;
		t.close(alg::euclidean_distance(a, b), sqrtl(s2), e, k + "euclidean_distance"); t.close(alg::distance(a, b), sqrtl(s2), e, k + "distance");
		t.close(alg::minkowski_distance(a, b, p), powl(sp, 1.0L / p), 4e-8 * s1 + e, k + "minkowski_distance"); t.close(alg::manhattan_distance(a, b), s1, e, k + "manhattan_distance");
		t.close(alg::chebyshev_distance(a, b), top, e, k + "chebyshev_distance"); t.close(alg::canberra_distance(a, b), can, 1e-12, k + "canberra_distance");
		t.close(alg::discrete_distance(a, b), ham ? 1 : 0, 0, k + "discrete_distance"); t.close(alg::hamming_distance(a, b), ham, 0, k + "hamming_distance");
		if (uu > 0 && vv > 0) t.close(alg::cosine_distance(a, b), 1 - dotp / sqrtl(uu * vv), 1e-14 * (n + 2), k + "cosine_distance");
		t.close(alg::discrete_distance(a, b, thr), (double) top > (double) thr ? 1 : 0, 0, k + "discrete_distance with a tolerance");
		unsigned h2 = 0; for (size_t i = 0; i < n; ++i) h2 += fabsl((ld) u[i] - v[i]) > thr; t.close(alg::hamming_distance(a, b, thr), h2, 0, k + "hamming_distance with a tolerance");
	};
	all(dynv(u), dynv(v), ""); all(dynv(v), dynv(u), "symmetric "); if (n == 3) all(stav<3>(u), stav<3>(v), "static ");
	// metric axioms with a third point
	th::vec<real> a = dynv(u), b = dynv(v), c = dynv(w);
	auto tri = [&](auto f, const char* m) { t.check(f(a, c) <= f(a, b) + f(b, c) + 4e-8 * (un + s1), m); t.check(f(a, a) <= 1e-12 * un && f(a, b) >= 0, m); };
	typedef const th::vec<real>& V;
	tri([](V x, V y) { return alg::euclidean_distance(x, y); }, "euclidean metric"); tri([](V x, V y) { return alg::manhattan_distance(x, y); }, "manhattan metric");
	tri([](V x, V y) { return alg::chebyshev_distance(x, y); }, "chebyshev metric"); tri([p](V x, V y) { return alg::minkowski_distance(x, y, p); }, "minkowski metric");
	tri([](V x, V y) { return alg::hamming_distance(x, y); }, "hamming metric"); tri([](V x, V y) { return alg::discrete_distance(x, y); }, "discrete metric"); tri([](V x, V y) { return alg::canberra_distance(x, y); }, "canberra metric");
	t.close(alg::distance(u[0], v[0]), fabsl((ld) u[0] - v[0]), 1e-15L * (fabsl(u[0]) + fabsl(v[0])), "distance of numbers"); t.close(alg::euclidean_distance(u[0], v[0]), fabsl((ld) u[0] - v[0]), 1e-15L * (fabsl(u[0]) + fabsl(v[0])), "euclidean_distance of numbers");
	t.close(alg::minkowski_distance(u[0], v[0], p), fabsl((ld) u[0] - v[0]), 4e-8 * s1, "minkowski_distance of numbers");
}

LAW(distances_of_complex, 40000) {
	size_t n = t.sz(1, 6, 50); th::vec<cplx> a(n), b(n); ld s2 = 0; std::vector<cld> ra, rb; const double un = gen_unit(t); const ld ep = 1e-14L * (n + 2) * un; const bool same = t.chance(1, 8); ld sl1 = 0, top = 0;
	for (size_t i = 0; i < n; ++i) { a[i] = cplx(un * t.r(-5, 5), un * t.r(-5, 5)); b[i] = cplx(un * t.r(-5, 5), un * t.r(-5, 5)); if (same && i) b[i] = a[i]; ld dd = hypotl((ld) a[i].a - b[i].a, (ld) a[i].b - b[i].b); sl1 += dd; top = std::max(top, dd); s2 += (ld) (a[i].a - b[i].a) * (a[i].a - b[i].a) + (ld) (a[i].b - b[i].b) * (a[i].b - b[i].b); }
	NOTE(a); NOTE(b); t.nontrivial();
	cplx d = alg::hermitian_distance(a, b), e = alg::distance(a, b), o = alg::hermitian_distance(a, a), f = alg::distance(a[0], b[0]);
	t.close(d.a, sqrtl(s2), ep, "hermitian_distance"); t.close(d.b, 0, ep, "hermitian_distance is real"); t.close(e.a, sqrtl(s2), ep, "distance of complex vectors");
	t.close(o.a, 0, ep, "the distance of a vector from itself");
	t.close(f.a, sqrtl((ld) (a[0].a - b[0].a) * (a[0].a - b[0].a) + (ld) (a[0].b - b[0].b) * (a[0].b - b[0].b)), ep, "distance of complex numbers");
	t.close(alg::manhattan_distance(a, b) >= alg::chebyshev_distance(a, b) - 1e-9 * un, 1, 0, "manhattan is at least chebyshev");
	t.close(alg::euclidean_distance(a, b), sqrtl(s2), ep, "euclidean_distance of complex vectors");
	t.close(alg::manhattan_distance(a, b), sl1, ep, "manhattan_distance of complex vectors"); t.close(alg::chebyshev_distance(a, b), top, ep, "chebyshev_distance of complex vectors"); t.close(alg::discrete_distance(a, b), top > 2.3e-16L ? 1 : 0, 0, "discrete_distance of complex vectors");
}

// High powers and long vectors
LAW(high_powers, 15000) {
	size_t n = t.sz(1, 6, 40); unsigned p = (unsigned) t.i(2, 60); dvec v, w; for (size_t i = 0; i < n; ++i) { v.push_back(t.coin() ? t.r(-3, 3) : t.r(-10, 10)); w.push_back(t.r(-3, 3)); } NOTE(v); NOTE(w); NOTE(p); t.nontrivial(n > 1 && p > 6); ld sp = 0, sd = 0, top = 0, td = 0; for (size_t i = 0; i < n; ++i) { sp += powl(fabsl(v[i]), p); sd += powl(fabsl((ld) v[i] - w[i]), p); top = std::max(top, fabsl((ld) v[i])); td = std::max(td, fabsl((ld) v[i] - w[i])); }
	if (top < 0.3L || td < 0.3L) t.discard(); t.close(alg::lp_norm(dynv(v), p), powl(sp, 1.0L / p), 1e-7L * top, "lp_norm"); t.close(alg::minkowski_distance(dynv(v), dynv(w), p), powl(sd, 1.0L / p), 1e-7L * td, "minkowski_distance"); ld d0 = fabsl((ld) v[0] - w[0]); if (d0 > 0.3L) t.close(alg::minkowski_distance((real) v[0], (real) w[0], p), d0, 1e-7L * d0, "minkowski_distance of numbers");
}
LAW(long_vectors, 300) {
	size_t n = t.n(200, 700); dvec u, v; size_t ham = 0; ld top = 0, s1 = 0, s2 = 0, mt = 0; bool neg = t.coin(); const double share = t.unit(); for (size_t i = 0; i < n; ++i) { double x = neg ? -t.r(0.1, 9) : t.r(-9, 9); u.push_back(x); v.push_back(t.unit() < share ? x + t.rnz(-3, 3) : x); ham += std::fabs(u[i] - v[i]) > 2.220446049250313e-16; ld d = fabsl((ld) u[i] - v[i]); top = std::max(top, d); s1 += d; s2 += d * d; mt = std::max(mt, fabsl((ld) x)); } t.note("size", n); t.note("different elements", ham); t.nontrivial(ham > 255); t.label_if(ham > 255, "more than 255 different elements"); auto a = dynv(u), b = dynv(v);
	t.close(alg::hamming_distance(a, b), ham, 0, "hamming_distance"); t.close(alg::chebyshev_distance(a, b), top, 1e-14L, "chebyshev_distance"); t.close(alg::manhattan_distance(a, b), s1, 1e-13L * s1, "manhattan_distance"); t.close(alg::euclidean_distance(a, b), sqrtl(s2), 1e-13L * sqrtl(s2), "euclidean_distance"); t.close(alg::linf_norm(a), mt, 0, "linf_norm"); t.close(alg::discrete_distance(a, b), ham ? 1 : 0, 0, "discrete_distance");
}
