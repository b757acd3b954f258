// C04: vectors form an inner product space; static and dynamic vectors agree
#include "linref.hpp"
using namespace pbt;
namespace alg = th::algebra;

static void vec_laws_body(T& t, size_t n, const dvec& a, const dvec& b, double k, std::vector<ld>& sum, std::vector<ld>& diff, std::vector<ld>& scal, ld& dot, ld& nrm, ld& mag) {
	dot = nrm = mag = 0;
	for (size_t i = 0; i < n; ++i) {
		sum.push_back((ld) a[i] + b[i]); diff.push_back((ld) a[i] - b[i]); scal.push_back((ld) a[i] * k);
		dot += (ld) a[i] * b[i]; nrm += (ld) a[i] * a[i]; mag += std::fabs(a[i] * b[i]) + std::fabs(a[i] * a[i]);
	}
}

template<typename It> static auto index_of(It& it, int) -> decltype((size_t) it.index()) { return it.index(); }
template<typename It> static size_t index_of(It&, long) { return (size_t) -1; } // run-time vectors have the iterators of their container
template<typename V, typename W> static void vec_laws(T& t, V va, W vb, const dvec& a, const dvec& b, double k) {
	const size_t n = a.size();
	std::vector<ld> sum, diff, scal; ld dot, nrm, mag;
	vec_laws_body(t, n, a, b, k, sum, diff, scal, dot, nrm, mag);
	ld big = 0; for (size_t i = 0; i < n; ++i) big = std::max(big, (ld) std::max(std::fabs(a[i]), std::fabs(b[i])));
	const ld e = 1e-15L * big, es = 1e-15L * (4 + std::fabs(k)) * big, ed = 1e-15L * (n + 2) * mag;
	vec_is(t, va + vb, sum, e, "v + w");
	vec_is(t, va - vb, diff, e, "v - w");
	vec_is(t, va * (real) k, scal, es, "v * k");
	vec_is(t, (real) k * va, scal, es, "k * v");
	vec_is(t, va * 3, [&]{ std::vector<ld> w; for (double x : a) w.push_back(3 * (ld) x); return w; }(), es, "v * integer");
	std::vector<ld> neg, same; for (double x : a) { neg.push_back(-x); same.push_back(x); }
	vec_is(t, -va, neg, 0, "-v");
	vec_is(t, +va, same, 0, "+v");
	t.close((double) va.dot(vb), dot, ed, "v.dot(w)");
	t.close((double) (va * vb), dot, ed, "v * w");
	t.close((double) alg::dot(va, vb), dot, ed, "algebra::dot");
	t.close((double) va.sqr_norm(), nrm, ed, "sqr_norm");
	t.approx((double) va.norm(), sqrtl(nrm), 1e-15L * (n + 2), 0, "norm");
	V s = va; s += vb; vec_is(t, s, sum, e, "v += w");
	s = va; s -= vb; vec_is(t, s, diff, e, "v -= w");
	s = va; s *= (real) k; vec_is(t, s, scal, es, "v *= k");
	if (std::fabs(k) > 1e-14) {
		std::vector<ld> q; for (double x : a) q.push_back((ld) x / k);
		const ld eq = 1e-15L * big / std::fabs(k); vec_is(t, va / (real) k, q, eq, "v / k");
		s = va; s /= (real) k; vec_is(t, s, q, eq, "v /= k");
	}
	t.check(va == va, "v == v"); t.check(!(va != va), "v != v");
	bool equal = a == b;
	t.eq(va == vb, equal, "v == w"); t.eq(va != vb, !equal, "v != w");
	if (nrm > 1e-29L) {
		std::vector<ld> u; for (double x : a) u.push_back(x / sqrtl(nrm));
		vec_is(t, va.normalized(), u, 1e-15L * (n + 2), "normalized");
		V m = va; m.normalize(); vec_is(t, m, u, 1e-15L * (n + 2), "normalize"); vec_is(t, alg::normalize(va), u, 1e-15L * (n + 2), "algebra::normalize"); m = va; alg::make_normalized(m); vec_is(t, m, u, 1e-15L * (n + 2), "algebra::make_normalized");
		t.close((double) va.normalized().norm(), 1, 1e-13, "the normalized vector has unit norm");
	}
	// operands are left untouched
	vec_is(t, va, same, 0, "operand after the operations");
	// traversal visits every element in order
	size_t c = 0; for (auto x : va) { t.check(c < n && (double) x == a[c], "iteration order"); ++c; }
	t.eq(c, n, "iteration length");
	const V& cv = va; c = 0; for (auto it = cv.begin(); it != cv.end(); ++it) { t.check(index_of(it, 0) == c || index_of(it, 0) == (size_t) -1, "index of a constant iterator"); t.check(c < n && (double) *it == a[c], "constant iteration order"); ++c; } t.eq(c, n, "constant iteration length");
	for (unsigned i = 0; i < n; ++i) { t.eq((double) cv[i], a[i], "constant element"); t.eq((double) cv.get(i), a[i], "get"); }
	V wr = va; c = 0; for (auto it = wr.begin(); !(it == wr.end()); ++it) { t.check(index_of(it, 0) == c || index_of(it, 0) == (size_t) -1, "index of an iterator"); *it = (real) (c + k); ++c; } for (size_t i = 0; i < n; ++i) t.eq((double) wr[i], (double) (real) (i + k), "element written by iteration");
	{ unsigned i = (unsigned) t.n(0, n - 1); wr = va; wr.set(i, (real) k); t.eq((double) wr[i], k, "set"); wr.at(i) = (real) (k + 1); t.eq((double) wr.get(i), k + 1, "at"); wr[i] = (real) a[i]; vec_is(t, wr, same, 0, "set and at write one element"); }
	// in-place and three-operand forms
	V r = va; alg::vec_sum(r, va, vb); vec_is(t, r, sum, e, "vec_sum into destination");
	r = va; alg::vec_diff(r, va, vb); vec_is(t, r, diff, e, "vec_diff into destination");
	r = va; alg::vec_sum(r, vb); vec_is(t, r, sum, e, "vec_sum in place");
	r = va; alg::vec_diff(r, vb); vec_is(t, r, diff, e, "vec_diff in place");
	r = va; alg::vec_scalmul((real) k, r); vec_is(t, r, scal, es, "vec_scalmul in place");
	r = va; alg::vec_scalmul(r, (real) k, va); vec_is(t, r, scal, es, "vec_scalmul into destination");
}

static void inputs(T& t, size_t n, dvec& a, dvec& b, double& k) {
	a = t.reals(n, -50, 50); b = t.chance(1, 8) ? a : t.reals(n, -50, 50); k = gen_factor(t, 20); double u = gen_unit(t);
	if (t.chance(1, 8)) { double m = 0; for (double x : a) m += x * x; if (m > 0) { u = (1 + t.rlogs(-14, -2)) / std::sqrt(m); t.label("norm close to one"); } }
	for (auto& x : a) x *= u; for (auto& x : b) x *= u; t.label_if(u < 1e-6, "small unit"); t.label_if(u > 1e6, "large unit");
	t.note("v", a); t.note("w", b); NOTE(k);
	t.nontrivial(n > 1 && a != b);
	t.label_if(a == b, "equal operands");
}

LAW(dynamic_vectors, 30000) {
	size_t n = t.sz(1, 12, 150); dvec a, b; double k; inputs(t, n, a, b, k);
	vec_laws(t, dynv(a), dynv(b), a, b, k);
}
LAW(static_vectors, 30000) {
	size_t n = t.n(1, 5); dvec a, b; double k; inputs(t, n, a, b, k);
	switch (n) {
	case 1: vec_laws(t, stav<1>(a), stav<1>(b), a, b, k); break;
	case 2: vec_laws(t, stav<2>(a), stav<2>(b), a, b, k); break;
	case 3: vec_laws(t, stav<3>(a), stav<3>(b), a, b, k); break;
	case 4: vec_laws(t, stav<4>(a), stav<4>(b), a, b, k); break;
	default: vec_laws(t, stav<5>(a), stav<5>(b), a, b, k);
	}
}
LAW(mixed_vectors, 20000) {
	// a static and a dynamic vector of the same size interoperate
	dvec a, b; double k; inputs(t, 3, a, b, k);
	if (t.coin()) vec_laws(t, dynv(a), stav<3>(b), a, b, k);
	else {
		std::vector<ld> sum, diff, scal; ld dot, nrm, mag;
		vec_laws_body(t, 3, a, b, k, sum, diff, scal, dot, nrm, mag);
		th::vec<real, 3> s = stav<3>(a); th::vec<real> d = dynv(b);
		ld big = 0; for (size_t i = 0; i < 3; ++i) big = std::max(big, (ld) std::max(std::fabs(a[i]), std::fabs(b[i])));
		t.close((double) s.dot(d), dot, 5e-15L * mag, "static.dot(dynamic)");
		th::vec<real, 3> r = s; r += d; vec_is(t, r, sum, 1e-15L * big, "static += dynamic");
		r = s; r -= d; vec_is(t, r, diff, 1e-15L * big, "static -= dynamic");
		th::vec<real> c = s; vec_is(t, c, std::vector<ld>(a.begin(), a.end()), 0, "dynamic constructed from static");
		th::vec<real, 3> u; u = d; vec_is(t, u, std::vector<ld>(b.begin(), b.end()), 0, "static assigned from dynamic");
		t.eq(s == d, a == b, "static == dynamic");
	}
}

LAW(inner_product_laws, 40000) {
	size_t n = t.sz(1, 8, 80);
	dvec a = t.reals(n, -20, 20), b = t.reals(n, -20, 20), c = t.reals(n, -20, 20); double k = gen_factor(t, 5), ua = gen_unit(t), ub = gen_unit(t);
	for (auto& x : a) x *= ua; for (auto& x : b) x *= ua; for (auto& x : c) x *= ub;
	t.note("a", a); t.note("b", b); t.note("c", c); t.nontrivial(n > 1);
	th::vec<real> A = dynv(a), B = dynv(b), C = dynv(c);
	t.close((double) (A * B), (double) (B * A), 1e-10 * ua * ua, "symmetry");
	t.close((double) ((A + B) * C), (double) (A * C + B * C), 1e-10 * ua * ub, "additivity");
	t.close((double) ((A * (real) k) * B), (double) ((real) k * (A * B)), 1e-10 * ua * ua, "homogeneity");
	t.check(A.sqr_norm() >= 0, "positivity");
	t.check(std::fabs(A * B) <= A.norm() * B.norm() * (1 + 1e-12), "Cauchy-Schwarz");
	t.check((A + B).norm() <= (A.norm() + B.norm()) * (1 + 1e-12), "triangle inequality");
}

LAW(cross_product, 40000) {
	dvec a = t.reals(3, -20, 20), b = t.reals(3, -20, 20); if (t.chance(1, 8)) b = a; if (t.chance(1, 8)) { double k = gen_factor(t, 4); for (int i = 0; i < 3; ++i) b[i] = k * a[i] * (1 + (t.coin() ? t.rlogs(-14, -4) : 0)); t.label("nearly parallel factors"); }
	double ua = gen_unit(t), ub = gen_unit(t); for (auto& x : a) x *= ua; for (auto& x : b) x *= ub;
	t.note("a", a); t.note("b", b); ld na = 0, nb = 0; for (int i = 0; i < 3; ++i) { na = std::max(na, (ld) std::fabs(a[i])); nb = std::max(nb, (ld) std::fabs(b[i])); } const ld e = 1e-15L * na * nb; t.nontrivial(a != b);
	std::vector<ld> w = {(ld) a[1] * b[2] - (ld) a[2] * b[1], (ld) a[2] * b[0] - (ld) a[0] * b[2], (ld) a[0] * b[1] - (ld) a[1] * b[0]};
	vec_is(t, stav<3>(a).cross(stav<3>(b)), w, e, "static cross");
	vec_is(t, dynv(a).cross(dynv(b)), w, e, "dynamic cross");
	vec_is(t, dynv(a).cross(stav<3>(b)), w, e, "dynamic cross static");
	vec_is(t, stav<3>(a).cross(dynv(b)), w, e, "static cross dynamic");
	vec_is(t, alg::cross(dynv(a), dynv(b)), w, e, "algebra::cross");
	auto x = stav<3>(a).cross(stav<3>(b));
	t.close((double) (x * stav<3>(a)), 0, 8 * e * na, "cross product orthogonal to the first factor");
	t.close((double) (x * stav<3>(b)), 0, 8 * e * nb, "cross product orthogonal to the second factor");
}

LAW(complex_vectors, 40000) {
	size_t n = t.sz(1, 6, 40);
	std::vector<cld> a, b; th::vec<cplx> A(n), B(n); double ua = gen_unit(t), ub = t.coin() ? ua : gen_unit(t); cld k(t.r(-5, 5), t.r(-5, 5)); if (t.chance(1, 6)) k = cld(gen_factor(t, 1), t.coin() ? 0 : gen_factor(t, 1));
	const bool same = t.chance(1, 8), re = t.chance(1, 8), im = t.chance(1, 8);
	for (size_t i = 0; i < n; ++i) {
		a.push_back(cld(im ? 0 : ua * t.r(-10, 10), re ? 0 : ua * t.r(-10, 10))); b.push_back(same ? a[i] : cld(ub * t.r(-10, 10), ub * t.r(-10, 10)));
		A[i] = cplx((real) a[i].real(), (real) a[i].imag()); B[i] = cplx((real) b[i].real(), (real) b[i].imag());
	}
	t.note("A", A); t.note("B", B); t.nontrivial();
	cplx K((real) k.real(), (real) k.imag());
	cld dot = 0, sq = 0; for (size_t i = 0; i < n; ++i) { dot += a[i] * std::conj(b[i]); sq += a[i] * std::conj(a[i]); }
	if (same) ub = ua; const ld ep = 5e-13L * n, um = std::max(ua, ub);
	auto cz = [&](cplx z, cld w, ld e, const char* m) { t.close((double) z.a, w.real(), e, m); t.close((double) z.b, w.imag(), e, m); };
	cz(A.dot(B), dot, ep * ua * ub, "complex dot");
	cz(A.sqr_norm(), sq, ep * ua * ua, "complex sqr_norm");
	cplx ba = B.dot(A); cz(cplx(ba.a, -ba.b), dot, ep * ua * ub, "conjugate symmetry");
	auto s = A + B, d = A - B, m = A * K, h = K * A;
	for (size_t i = 0; i < n; ++i) {
		cz(s[i], a[i] + b[i], 1e-14L * um, "complex sum"); cz(d[i], a[i] - b[i], 1e-14L * um, "complex difference");
		cz(m[i], a[i] * k, 5e-14L * ua, "complex vector times scalar"); cz(h[i], a[i] * k, 5e-14L * ua, "complex scalar times vector");
	}
	// in place forms, inner product with a multiple, norms
	{ auto r = A; r += B; r -= A; for (size_t i = 0; i < n; ++i) cz(r[i], b[i], 4e-14L * um, "complex sum and difference in place"); r = A; r *= K; for (size_t i = 0; i < n; ++i) cz(r[i], a[i] * k, 5e-14L * ua, "complex scaling in place"); }
	{ cplx q = (A * K).dot(B); cz(q, k * dot, 12 * ep * ua * ub, "linearity in the first factor"); q = A.dot(B * K); cz(q, std::conj(k) * dot, 12 * ep * ua * ub, "conjugate linearity in the second factor"); }
	if (sqrtl(sq.real()) > 2e-8L) { auto u = A.normalized(); for (size_t i = 0; i < n; ++i) cz(u[i], a[i] / sqrtl(sq.real()), 1e-14L * (n + 2), "normalized complex vector"); u = A; u.normalize(); for (size_t i = 0; i < n; ++i) cz(u[i], a[i] / sqrtl(sq.real()), 1e-14L * (n + 2), "complex vector normalized in place"); }
	t.approx((double) A.norm().a, sqrtl(sq.real()), 1e-14L * (n + 2), 0, "complex norm");
}

LAW(base_vectors_and_resizing, 20000) {
	size_t n = t.sz(1, 10, 90), i = t.n(0, n - 1); NOTE(n); NOTE(i); t.nontrivial(n > 1);
	auto e = th::vec<real>::euclidean_base(i, n);
	t.eq((size_t) e.size(), n, "base vector size");
	for (size_t j = 0; j < n; ++j) t.eq((double) e[j], i == j ? 1.0 : 0.0, "base vector element");
	auto f = th::vec<real, 4>::euclidean_base(i % 4);
	for (size_t j = 0; j < 4; ++j) t.eq((double) f[j], i % 4 == j ? 1.0 : 0.0, "static base vector element");
	dvec a = t.reals(n, -9, 9); th::vec<real> v = dynv(a);
	size_t m = t.sz(0, 12, 100); t.note("m", m);
	v.resize(m); t.eq((size_t) v.size(), m, "size after resize");
	for (size_t j = 0; j < m; ++j) t.eq((double) v[j], j < n ? a[j] : 0.0, "element after resize");
	v.push((real) 7); t.eq((size_t) v.size(), m + 1, "size after push"); t.eq((double) v[m], 7.0, "pushed element");
	v.set(m, 3); t.eq((double) v.get(m), 3.0, "get after set"); v.at(m) = 4; t.eq((double) v[m], 4.0, "at");
	th::vec<real> z(n); for (size_t j = 0; j < n; ++j) t.eq((double) z[j], 0.0, "a new vector is null");
	th::vec<real> c(n, (real) 2.5); for (size_t j = 0; j < n; ++j) t.eq((double) c[j], 2.5, "a constant vector");
	th::vec<real, 3> k((real) 1.5); for (size_t j = 0; j < 3; ++j) t.eq((double) k[j], 1.5, "a constant static vector");
	auto mk = th::make_vec<real>((real) a[0], (real) 2.0, (real) 3.0);
	t.eq((size_t) mk.size(), (size_t) 3, "make_vec size"); t.eq((double) mk[0], a[0], "make_vec"); t.eq((double) mk[2], 3.0, "make_vec");
	th::vec<real> il = {(real) a[0], 2, 3, 4}; t.eq((size_t) il.size(), (size_t) 4, "initializer list"); t.eq((double) il[3], 4.0, "initializer list element");
}

LAW(vector_text, 10000) {
	size_t n = t.sz(1, 6, 60); std::vector<int> a(n); th::vec<real> v(n);
	for (size_t i = 0; i < n; ++i) { a[i] = (int) t.i(-99, 99); v[i] = a[i]; }
	t.note("a", a); t.nontrivial(n > 1);
	std::string w; for (size_t i = 0; i < n; ++i) w += (i ? ", " : "") + std::to_string(a[i]);
	t.eq(v.to_string(), "(" + w + ")", "to_string");
	t.eq(v.to_string(", ", false), w, "to_string without parentheses");
	std::ostringstream o; o << v; t.eq(o.str(), "(" + w + ")", "operator<<");
	if (n == 3) { th::vec<real, 3> s; for (int i = 0; i < 3; ++i) s[i] = a[i]; t.eq(s.to_string(), "(" + w + ")", "static to_string"); }
}

// Vectors of any kind are assigned and built from one another
LAW(assignments, 20000) {
	size_t n = t.sz(1, 6, 60), m = t.n(0, 6); dvec a = t.reals(n, -9, 9), b = t.reals(3, -9, 9); t.note("a", a); t.note("b", b); NOTE(m); t.nontrivial(n != m); std::vector<ld> w(a.begin(), a.end()), w3(b.begin(), b.end());
	th::vec<real> v = dynv(a), d((unsigned) m, (real) 5); d = v; vec_is(t, d, w, 0, "assignment"); d = th::vec<real>((unsigned) m, (real) 5); d = std::vector<real>(a.begin(), a.end()); vec_is(t, d, w, 0, "assignment of a std::vector"); d = th::vec<real>((unsigned) m, (real) 5); d = stav<3>(b); vec_is(t, d, w3, 0, "assignment of a static vector"); d = {(real) b[0], (real) b[1]}; vec_is(t, d, {b[0], b[1]}, 0, "assignment of a list");
	th::vec<real> c(stav<3>(b)); vec_is(t, c, w3, 0, "copy of a static vector"); th::vec<real, 3> s(dynv(b)); vec_is(t, s, w3, 0, "static copy of a run-time vector"); th::vec<real, 3> u; for (unsigned i = 0; i < 3; ++i) t.eq((double) u[i], 0.0, "a new static vector is null"); u = s; vec_is(t, u, w3, 0, "static assignment"); u = th::vec<real, 3>({(real) 1, (real) 2, (real) b[2]}); vec_is(t, u, {1, 2, b[2]}, 0, "static list");
	th::vec<real> e; t.eq((size_t) e.size(), (size_t) 0, "a default vector is empty"); e += v; vec_is(t, e, w, 0, "an empty vector counts as null in a sum"); t.check(v == d || n != 2 || a[0] != b[0] || a[1] != b[1], "equal vectors"); th::vec<real> l = v; l.push(1); t.check(!(l == v) && l != v, "vectors of different sizes are different"); l = v; unsigned i = (unsigned) t.n(0, n - 1); l[i] += 1; t.check(!(l == v) && l != v, "vectors with one different element are different");
	alg::vec_copy(d, v); vec_is(t, d, w, 0, "vec_copy"); alg::vec_zeroes(d); vec_is(t, d, std::vector<ld>(n, 0), 0, "vec_zeroes"); alg::vec_error(d); t.eq((size_t) d.size(), n, "size of an error vector"); for (size_t k = 0; k < n; ++k) t.is_nan(d[k], "elements of an error vector");
}

template<typename F> static int err_of(F f) { int e = 0; with_errno(e, [&] { f(); return 0; }); return e; }
// Static vectors of any length
template<unsigned N> static void wide(T& t) {
	int m1 = (int) t.i(1, 16), m2 = (int) t.i(1, 16), o1 = (int) t.i(0, 16), o2 = (int) t.i(0, 16); double k = (t.coin() ? -1 : 1) * t.r(0.5, 4); t.note("N", N); NOTE(m1); NOTE(o1); NOTE(m2); NOTE(o2); NOTE(k);
	th::vec<real, N> a, b; std::vector<ld> x(N), y(N), w(N); for (unsigned i = 0; i < N; ++i) { x[i] = (int) ((i * m1 + o1) % 17) - 8; y[i] = ((int) ((i * m2 + o2) % 13) - 6) * 0.5L; a[i] = (real) x[i]; b[i] = (real) y[i]; }
	auto at = [&](auto f) { for (unsigned i = 0; i < N; ++i) w[i] = f(i); return w; }; const ld e = 1e-14L * 9; th::vec<real, N> r = a;
	vec_is(t, a + b, at([&](unsigned i) { return x[i] + y[i]; }), 0, "sum of long static vectors"); vec_is(t, a - b, at([&](unsigned i) { return x[i] - y[i]; }), 0, "difference of long static vectors"); vec_is(t, a * (real) k, at([&](unsigned i) { return x[i] * k; }), e, "multiple of a long static vector"); vec_is(t, a / (real) k, at([&](unsigned i) { return x[i] / k; }), e, "quotient of a long static vector"); vec_is(t, -a, at([&](unsigned i) { return -x[i]; }), 0, "opposite of a long static vector");
	r += b; vec_is(t, r, at([&](unsigned i) { return x[i] + y[i]; }), 0, "in-place sum of long static vectors"); r = a; r -= b; vec_is(t, r, at([&](unsigned i) { return x[i] - y[i]; }), 0, "in-place difference of long static vectors"); r = a; r *= (real) k; vec_is(t, r, at([&](unsigned i) { return x[i] * k; }), e, "in-place multiple of a long static vector"); r = a; r /= (real) k; vec_is(t, r, at([&](unsigned i) { return x[i] / k; }), e, "in-place quotient of a long static vector");
	ld d = 0, n2 = 0; for (unsigned i = 0; i < N; ++i) { d += x[i] * y[i]; n2 += x[i] * x[i]; } t.close((double) a.dot(b), d, 1e-12L * N, "product of long static vectors"); t.close((double) a.sqr_norm(), n2, 1e-12L * N, "squared norm of a long static vector");
	size_t n = 0; for (auto& v : a) { if (n < N) t.eq((double) v, (double) x[n], "iteration over a long static vector"); ++n; } t.eq(n, (size_t) N, "number of elements visited"); n = 0; const auto& ca = a; for (const auto& v : ca) { if (n < N) t.eq((double) v, (double) x[n], "iteration over a constant static vector"); ++n; } t.eq(n, (size_t) N, "number of constant elements visited");
	unsigned j = (unsigned) t.n(0, N - 1); NOTE(j); r = a; t.check(r == a && !(r != a), "equal static vectors"); r[j] += (real) (t.coin() ? 1e-6 : 1); t.check(r != a && !(r == a), "one different element of a static vector"); th::vec<real, N> u = th::vec<real, N>::euclidean_base(j); for (unsigned i = 0; i < N; ++i) t.eq((double) u[i], i == j ? 1.0 : 0.0, "base vector");
	if (n2 > 0) { th::vec<real, N> z = a.normalized(); for (unsigned i = 0; i < N; ++i) t.close((double) z[i], x[i] / sqrtl(n2), 1e-14L, "normalised long static vector"); }
	// vectors of another size are refused
	th::vec<real> s(N + (t.coin() ? 1 : -1)); for (auto& v : s) v = 1; int e1 = err_of([&] { r += s; }); t.check(e1 != 0, "sum with a vector of another size"); t.is_nan((double) r[0], "sum with a vector of another size"); r = a; e1 = err_of([&] { r -= s; }); t.check(e1 != 0, "difference with a vector of another size"); t.is_nan((double) r[N - 1], "difference with a vector of another size");
}
LAW(long_static_vectors, 6000) {
	t.nontrivial(); switch (t.choice(4)) { case 0: wide<2>(t); break; case 1: wide<8>(t); break; case 2: wide<17>(t); break; case 3: wide<70>(t); break; default: wide<300>(t); }
}
// Equality is exact; destinations may be the operands themselves
LAW(equality_and_aliasing, 20000) {
	size_t n = t.sz(1, 6, 70); dvec a = t.reals(n, -5, 5), b = t.reals(n, -5, 5); if (t.coin()) for (size_t i = 1; i < n; ++i) if (t.coin()) a[i] = a[i - 1]; double u = gen_unit(t), k = gen_factor(t, 9), l = gen_factor(t, 9); for (auto& x : a) x *= u; for (auto& x : b) x *= u; NOTE(a); NOTE(b); NOTE(k); NOTE(l); t.nontrivial(n > 1);
	th::vec<real> A = dynv(a), B = dynv(b), R = A; size_t j = t.n(0, n - 1); t.check(R == A && !(R != A), "equal vectors"); R[j] = std::nextafter(R[j], (real) 1e300); t.check(R != A && !(R == A), "vectors different in the last digit"); t.check(A != R && !(A == R), "vectors different in the last digit");
	auto is = [&](const th::vec<real>& r, auto f, const char* m) { if (r.size() != n) t.fail(m); for (size_t i = 0; i < n; ++i) { ld w = f(i); t.close((double) r[i], w, 1e-15L * (std::fabs(a[i] * k) + std::fabs(b[i] * l) + std::fabs(a[i]) + std::fabs(b[i])) * 4, m); } };
	R = A; th::algebra::vec_scalmul(R, (real) k, R); is(R, [&](size_t i) { return (ld) a[i] * k; }, "vec_scalmul into its operand"); R = A; th::algebra::vec_sum(R, R, B); is(R, [&](size_t i) { return (ld) a[i] + b[i]; }, "vec_sum into its first operand"); R = B; th::algebra::vec_sum(R, A, R); is(R, [&](size_t i) { return (ld) a[i] + b[i]; }, "vec_sum into its second operand");
	R = A; th::algebra::vec_diff(R, R, B); is(R, [&](size_t i) { return (ld) a[i] - b[i]; }, "vec_diff into its first operand"); R = B; th::algebra::vec_diff(R, A, R); is(R, [&](size_t i) { return (ld) a[i] - b[i]; }, "vec_diff into its second operand"); R = A; th::algebra::vec_sum(R, R, R); is(R, [&](size_t i) { return (ld) a[i] * 2; }, "vec_sum of a vector with itself"); R = A; th::algebra::vec_diff(R, R); is(R, [&](size_t) { return (ld) 0; }, "vec_diff of a vector with itself"); R = A; R += R; is(R, [&](size_t i) { return (ld) a[i] * 2; }, "a vector added to itself"); R = A; R -= R; is(R, [&](size_t) { return (ld) 0; }, "a vector minus itself");
	R = A; th::algebra::vec_scalmul((real) k, R); is(R, [&](size_t i) { return (ld) a[i] * k; }, "vec_scalmul in place");
	if (n > 1) { th::vec<real> S = dynv(dvec(b.begin(), b.end() - 1)); R = A; int e = err_of([&] { R += S; }); t.check(e != 0, "in-place sum with a shorter vector"); R = S; e = err_of([&] { R += A; }); t.check(e != 0, "in-place sum with a longer vector"); R = A; e = err_of([&] { R -= S; }); t.check(e != 0, "in-place difference with a shorter vector"); R = S; e = err_of([&] { R -= A; }); t.check(e != 0, "in-place difference with a longer vector"); }
}
