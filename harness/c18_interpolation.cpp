// C18: interpolation - linear, polynomial, Bezier curves and cubic splines
#include "common.hpp"
#include "linref.hpp"
using namespace pbt;
typedef std::vector<ld> L;
typedef th::vec<real, 2> V2; typedef th::vec<real, 3> V3;
static ld ev(const L& c, ld x) { ld s = 0; for (size_t i = c.size(); i--;) s = s * x + c[i]; return s; }
static std::string str(const L& c) { std::string s; for (ld v : c) s += show((double) v) + " "; return s; }

// distinct abscissae, at least `gap` apart, in increasing order or shuffled
static L abscissae(T& t, size_t n, bool shuffled) {
	L x; ld at = t.r(-3, 3); bool even = t.chance(1, 4);
	for (size_t i = 0; i < n; ++i) { x.push_back((real) at); at += even ? 0.5L : (ld) t.r(0.3, 1.5); }
	if (shuffled) for (size_t i = n; i > 1; --i) std::swap(x[i - 1], x[t.n(0, i - 1)]);
	return x;
}

LAW(linear_maps, 60000) {
	real a = (real) t.rlogs(-3, 4), b = (real) t.rlogs(-3, 4), c = (real) t.r(-10, 10), d = (real) t.r(-10, 10), s = (real) t.r(-2, 3);
	if (t.chance(1, 4)) { a = (real) t.i(-5, 5); b = (real) t.i(-5, 5); }
	NOTE(a); NOTE(b); NOTE(c); NOTE(d); NOTE(s); t.nontrivial(a != b); ld w = fabsl(a) + fabsl(b); ld e = 4e-16L * w * (1 + fabsl(s));
	t.close(th::lerp(a, b, s), (ld) a + s * ((ld) b - a), e, "linear interpolation"); t.eq((double) th::lerp(a, b, 0), (double) a, "interpolation at 0"); t.close(th::lerp(a, b, 1), b, e, "interpolation at 1");
	if (a == b) return;
	ld x = a + s * ((ld) b - a); t.close(th::invlerp(a, b, (real) x), s, 1e-15L * (1 + fabsl(s)) + 4 * e / fabsl((ld) b - a), "inverse interpolation");
	t.close(th::remap(a, b, c, d, (real) x), c + s * ((ld) d - c), (1e-15L * (1 + fabsl(s)) + 4 * e / fabsl((ld) b - a)) * (1 + fabsl(d - c)) + 1e-14 * (fabsl(c) + fabsl(d)), "remapped value");
	// sigmoids: 0 before, 1 after, the Hermite polynomial in between
	ld u = std::max(0.0L, std::min(1.0L, ((real) x - (ld) a) / ((ld) b - a))), es = 1e-14 + 8 * e / fabsl((ld) b - a);
	t.close(th::smoothstep(a, b, (real) x), u * u * (3 - 2 * u), es, "smooth step"); t.close(th::smootherstep(a, b, (real) x), u * u * u * (10 + u * (6 * u - 15)), es, "smoother step");
	if (s <= 0 && (real) x * (b > a ? 1 : -1) <= a * (b > a ? 1 : -1)) { t.eq((double) th::smoothstep(a, b, (real) x), 0.0, "smooth step before the first edge"); t.eq((double) th::smootherstep(a, b, (real) x), 0.0, "smoother step before the first edge"); }
	if (s >= 1 && (real) x * (b > a ? 1 : -1) >= b * (b > a ? 1 : -1)) { t.eq((double) th::smoothstep(a, b, (real) x), 1.0, "smooth step after the second edge"); t.eq((double) th::smootherstep(a, b, (real) x), 1.0, "smoother step after the second edge"); }
	int err; t.is_nan(with_errno(err, [&] { return (double) th::smoothstep(a, a, s); }), "smooth step between equal edges"); t.check(err != 0, "equal edges are reported");
	t.is_nan(with_errno(err, [&] { return (double) th::smootherstep(a, a, s); }), "smoother step between equal edges"); t.check(err != 0, "equal edges are reported");
}

template<unsigned N> static th::vec<real, N> point(T& t) { th::vec<real, N> v; for (unsigned i = 0; i < N; ++i) v[i] = (real) t.r(-5, 5); return v; }
template<unsigned N> static void vectors(T& t) {
	typedef th::vec<real, N> V; V a = point<N>(t), b = point<N>(t); real s = t.chance(1, 4) ? (real) t.i(0, 1) : (real) t.r(0, 1); NOTE(a); NOTE(b); NOTE(s); t.nontrivial(s > 0 && s < 1);
	V l = th::lerp(a, b, s); ld na = 0, nb = 0, dot = 0, nl = 0; L m(N);
	for (unsigned i = 0; i < N; ++i) { m[i] = a[i] + s * ((ld) b[i] - a[i]); t.close(l[i], m[i], 1e-14, "linear interpolation of vectors"); na += (ld) a[i] * a[i]; nb += (ld) b[i] * b[i]; dot += (ld) a[i] * b[i]; nl += m[i] * m[i]; }
	na = sqrtl(na); nb = sqrtl(nb); nl = sqrtl(nl);
	if (nl > 0.05L) { V q = th::nlerp(a, b, s); for (unsigned i = 0; i < N; ++i) t.close(q[i], m[i] / nl, 1e-12, "normalised linear interpolation"); }
	int err; V z(0); V bad = with_errno(err, [&] { return th::slerp(a, z, s); }); t.check(err != 0, "a null vector in spherical interpolation is reported"); t.is_nan(bad[0], "spherical interpolation to a null vector");
	if (na < 0.1L || nb < 0.1L) return;
	ld w = acosl(std::max(-1.0L, std::min(1.0L, dot / (na * nb)))); if (w < 0.05L || w > PIl - 0.05L) { t.label("parallel"); return; }
	V q = with_errno(err, [&] { return th::slerp(a, b, s); }); for (unsigned i = 0; i < N; ++i) t.close(q[i], (a[i] * sinl((1 - s) * w) + b[i] * sinl(s * w)) / sinl(w), 4e-8L * (na + nb) / (sinl(w) * sinl(w)), "spherical linear interpolation"); t.check(err == 0, "spherical interpolation reported an error");
}
LAW(vector_interpolation, 40000) { if (t.coin()) vectors<2>(t); else vectors<3>(t); }

template<unsigned N> static void bez(T& t) {
	typedef th::vec<real, N> V; size_t n = t.sz(2, 8, 24); std::vector<V> p; for (size_t i = 0; i < n; ++i) p.push_back(point<N>(t)); real s = t.chance(1, 4) ? (real) t.i(0, 1) : (real) t.r(0, 1);
	NOTE(n); NOTE(s); NOTE(p[0]); NOTE(p[n - 1]); t.nontrivial(n > 2 && s > 0 && s < 1); auto keep = p; int err;
	V r = with_errno(err, [&] { return th::bezier(p, s); }); L w(N, 0); ld bin = 1;
	for (size_t i = 0; i < n; ++i) { ld c = bin * powl(s, i) * powl(1 - (ld) s, n - 1 - i); for (unsigned k = 0; k < N; ++k) w[k] += c * p[i][k]; bin = bin * (n - 1 - i) / (i + 1); }
	for (unsigned k = 0; k < N; ++k) t.close(r[k], w[k], 1e-13, "point of the Bezier curve"); t.check(err == 0, "a Bezier curve reported an error");
	for (size_t i = 0; i < n; ++i) t.check(p[i] == keep[i], "the control points are not modified");
	if (n == 3) { V q = th::quadratic_bezier(p[0], p[1], p[2], s); for (unsigned k = 0; k < N; ++k) t.close(q[k], w[k], 1e-13, "point of the quadratic Bezier curve"); }
	if (n == 4) { V q = th::cubic_bezier(p[0], p[1], p[2], p[3], s); for (unsigned k = 0; k < N; ++k) t.close(q[k], w[k], 1e-13, "point of the cubic Bezier curve"); }
	real o = t.coin() ? (real) (1 + t.rlog(-10, 1)) : -(real) t.rlog(-10, 1); NOTE(o); V b = with_errno(err, [&] { return th::bezier(p, o); }); t.is_nan(b[0], "Bezier curve outside of [0, 1]"); t.check(err != 0, "a parameter outside of [0, 1] is reported");
	std::vector<V> few(p.begin(), p.begin() + t.n(0, 1)); b = with_errno(err, [&] { return th::bezier(few, s); }); t.is_nan(b[0], "Bezier curve of fewer than 2 points"); t.check(err != 0, "too few points are reported");
}
LAW(bezier_curves, 40000) { if (t.coin()) bez<2>(t); else bez<3>(t); }

// ------------------------------------------------------------ polynomials

LAW(lagrange, 60000) {
	size_t n = t.n(1, 8); L x = abscissae(t, n, t.coin()), c; size_t deg = t.n(0, n - 1); for (size_t i = 0; i <= deg; ++i) c.push_back((real) t.r(-3, 3));
	bool data = t.coin(); std::vector<V2> p; L y; for (size_t i = 0; i < n; ++i) { y.push_back(data ? (ld) (real) t.r(-10, 10) : (ld) (real) ev(c, x[i])); p.push_back({(real) x[i], (real) y[i]}); }
	t.note("x", str(x)); t.note("y", str(y)); t.nontrivial(n > 2); t.label_if(data, "arbitrary data"); int err;
	auto keep = p; auto q = with_errno(err, [&] { return th::lagrange_polynomial(p); }); t.check(err == 0, "interpolation of distinct points reported an error"); t.check(q.size() <= n, "the degree is below the number of points");
	for (size_t i = 0; i < n; ++i) t.check(keep[i] == p[i], "the points are not modified");
	// magnitude of the terms, for rounding
	ld mag = 0; for (size_t j = 0; j < n; ++j) { ld m = fabsl(y[j]); for (size_t k = 0; k < n; ++k) if (k != j) m *= (4 + 2 * n + fabsl(x[k])) / fabsl(x[j] - x[k]); mag = std::max(mag, m); } ld e = 1e-14L * (1 + mag);
	if (e > 1e-3) t.discard();
	for (size_t i = 0; i < n; ++i) t.close(q((real) x[i]), y[i], e, "value of the interpolating polynomial at a node");
	if (!data) { real z = (real) (x[0] + t.r(-1, 1)); NOTE(z); t.close(q(z), ev(c, z), 100 * e, "interpolation of a polynomial of lower degree"); }
	// repeated abscissae have no interpolating polynomial, wherever they are
	if (n >= 2) { size_t i = t.n(0, n - 1), j = t.n(0, n - 1); NOTE(i); NOTE(j); if (i != j) { p[i][0] = p[j][0]; auto b = with_errno(err, [&] { return th::lagrange_polynomial(p); }); t.check(err != 0, "repeated abscissae are reported"); t.is_nan(b((real) 1), "interpolation with repeated abscissae"); } }
	std::vector<V2> none; auto b = with_errno(err, [&] { return th::lagrange_polynomial(none); }); t.check(err != 0, "no points are reported"); t.is_nan(b((real) 1), "interpolation of no points");
}

LAW(sampled_functions, 30000) {
	unsigned order = (unsigned) t.n(0, 7); real a = (real) t.r(-3, 3), b = a + (real) t.rnz(0.5, 4); int k = (int) t.i(0, 2); ld w = t.r(0.2, 1.5); L c; for (unsigned i = 0; i <= order; ++i) c.push_back((real) t.r(-2, 2));
	NOTE(order); NOTE(a); NOTE(b); NOTE(k); NOTE((double) w); t.note("coefficients", str(c)); t.nontrivial(order > 1); t.label_if(order == 0, "constant"); t.label_if(b < a, "exchanged ends");
	auto F = [&](ld x) -> ld { return k == 0 ? ev(c, x) : k == 1 ? sinl(w * x + 1) : expl(w * x / 2); }; th::real_function f = [&](real x) { return (real) F(x); };
	// the nodes lie strictly inside the interval, in decreasing order from b
	auto nodes = th::chebyshev_nodes(a, b, order + 1); t.eq(nodes.size(), (size_t) order + 1, "number of Chebyshev nodes");
	for (unsigned i = 0; i <= order; ++i) t.close(nodes[i], ((ld) a + b) / 2 + ((ld) b - a) / 2 * cosl((2 * i + 1) * PIl / (2 * order + 2)), 1e-14, "Chebyshev node");
	ld h = fabsl((ld) b - a) / std::max(1u, order), mag = 1; for (unsigned i = 0; i <= order; ++i) mag *= (fabsl(a) + fabsl(b) + 1) / std::max<ld>(1, 1.0L); mag *= powl(2 / fabsl((ld) b - a), order) * 2; ld fm = 0; for (int i = 0; i <= 8; ++i) fm = std::max(fm, fabsl(F(a + i * ((ld) b - a) / 8))); ld e = 1e-13L * (1 + fm) * (1 + mag); (void) h; if (e > 1e-4) t.discard();
	auto pc = th::interpolate_chebyshev(f, a, b, order); for (unsigned i = 0; i <= order; ++i) t.close(pc(nodes[i]), F(nodes[i]), e, "Chebyshev interpolation at a node");
	t.check(pc.size() <= order + 1, "the degree is at most the order");
	int err; auto pg = with_errno(err, [&] { return th::interpolate_grid(f, a, b, order); }); t.check(err == 0, "interpolation on a grid reported an error"); t.check(pg.size() <= order + 1, "the degree is at most the order");
	if (order) for (unsigned i = 0; i <= order; ++i) { real x = (real) (a + i * ((ld) b - a) / order); t.close(pg(x), F(x), e, "grid interpolation at a node"); }
	else { real v = pg((real) 0); bool in = false; for (int i = 0; i <= 4000 && !in; ++i) in = fabsl(v - F(a + i * ((ld) b - a) / 4000)) < 1e-2 * (1 + fm); t.check(in, "interpolation of order 0 is a value of the function"); }
	if (k == 0) { real z = (real) (a + t.unit() * ((ld) b - a)); NOTE(z); t.close(pc(z), F(z), e * 10, "Chebyshev interpolation of a polynomial"); if (order) t.close(pg(z), F(z), e * 100, "grid interpolation of a polynomial"); }
}

// ------------------------------------------------------------ natural cubic splines

// second derivatives at the knots, from the linear system of the natural spline
static L second(const L& x, const L& y) {
	size_t n = x.size(); L m(n, 0); if (n < 3) return m; size_t k = n - 2; std::vector<L> A(k, L(k + 1, 0));
	for (size_t i = 0; i < k; ++i) { ld h0 = x[i + 1] - x[i], h1 = x[i + 2] - x[i + 1]; if (i) A[i][i - 1] = h0 / 6; A[i][i] = (h0 + h1) / 3; if (i + 1 < k) A[i][i + 1] = h1 / 6; A[i][k] = (y[i + 2] - y[i + 1]) / h1 - (y[i + 1] - y[i]) / h0; }
	for (size_t i = 0; i < k; ++i) for (size_t j = i + 1; j < k; ++j) { ld f = A[j][i] / A[i][i]; for (size_t c = i; c <= k; ++c) A[j][c] -= f * A[i][c]; }
	for (size_t i = k; i--;) { ld s = A[i][k]; for (size_t j = i + 1; j < k; ++j) s -= A[i][j] * m[j + 1]; m[i + 1] = s / A[i][i]; }
	return m;
}
LAW(cubic_splines, 80000) {
	size_t n = t.sz(2, 12, 80); L x = abscissae(t, n, false), y; bool line = t.chance(1, 8); ld al = t.r(-2, 2), be = t.r(-2, 2); for (size_t i = 0; i < n; ++i) y.push_back(line ? (ld) (real) (al * x[i] + be) : (ld) (real) t.r(-5, 5));
	t.note("x", str(x)); t.note("y", str(y)); bool even = true; for (size_t i = 2; i < n; ++i) if (fabsl((x[i] - x[i - 1]) - (x[1] - x[0])) > 1e-9) even = false;
	t.nontrivial(n > 3 && !even && !line); t.label_if(even, "equidistant"); t.label_if(n == 2, "two points"); t.label_if(line, "collinear");
	std::vector<V2> p; std::vector<real> X, Y; for (size_t i = 0; i < n; ++i) { p.push_back({(real) x[i], (real) y[i]}); X.push_back((real) x[i]); Y.push_back((real) y[i]); }
	int err; th::spline s = with_errno(err, [&] { return th::spline(p); }); t.check(err == 0, "a spline reported an error"); th::spline s2 = with_errno(err, [&] { return th::spline(X, Y); }); t.check(err == 0, "a spline reported an error");
	th::vec<real> VX(n), VY(n); for (size_t i = 0; i < n; ++i) { VX[i] = X[i]; VY[i] = Y[i]; } th::spline s3(VX, VY); t.eq(s.nodes.size(), n - 1, "number of pieces"); t.eq(s2.nodes.size(), n - 1, "number of pieces");
	L m = second(x, y); ld big = 1; for (ld v : m) big = std::max(big, fabsl(v)); for (size_t i = 1; i < n; ++i) big = std::max(big, fabsl((y[i] - y[i - 1]) / (x[i] - x[i - 1])));
	auto ref = [&](ld z, int d) -> ld {
		size_t i = 0; while (i + 2 < n && z >= x[i + 1]) ++i; ld h = x[i + 1] - x[i], u = z - x[i];
		ld b = (y[i + 1] - y[i]) / h - h * (2 * m[i] + m[i + 1]) / 6, c = m[i] / 2, dd = (m[i + 1] - m[i]) / (6 * h); return d == 0 ? y[i] + u * (b + u * (c + u * dd)) : b + u * (2 * c + 3 * u * dd); };
	const ld e = 1e-12L * big;
	for (size_t i = 0; i < n; ++i) { t.close(s((real) x[i]), y[i], e, "value of the spline at a knot"); t.close(s2((real) x[i]), y[i], e, "value of the spline at a knot"); }
	for (int k = 0; k < 6; ++k) {
		ld w = x[n - 1] - x[0]; real z = (real) (k < 4 ? x[0] + t.unit() * w : k == 4 ? x[0] - t.r(0, 1) : x[n - 1] + t.r(0, 1)); NOTE(z); ld q = k < 4 ? 1 : 10;
		t.close(s(z), ref(z, 0), q * e, "value of the spline"); t.close(s2(z), ref(z, 0), q * e, "value of the spline from two data sets"); t.close(s3(z), ref(z, 0), q * e, "value of the spline from two vectors");
		t.close(s.deriv(z), ref(z, 1), q * 10 * e, "derivative of the spline"); t.close(s2.deriv(z), ref(z, 1), q * 10 * e, "derivative of the spline from two data sets");
	}
	// smooth across the knots
	for (size_t i = 1; i + 1 < n; ++i) { ld l = s.nodes[i - 1]((real) x[i]), r = s.nodes[i]((real) x[i]), dl = s.nodes[i - 1].deriv((real) x[i]), dr = s.nodes[i].deriv((real) x[i]); t.close(l, r, 10 * e, "continuity at a knot"); t.close(dl, dr, 20 * e, "continuity of the derivative at a knot"); }
	th::spline cp = s; real z = (real) x[0]; t.eq((double) cp(z), (double) s(z), "copy of a spline"); cp = s2; t.eq((double) cp(z), (double) s2(z), "assignment of a spline");
}

LAW(invalid_splines, 10000) {
	size_t n = t.n(0, 6), m = t.n(0, 6); NOTE(n); NOTE(m); if (n == m && n >= 2) t.discard(); t.nontrivial(n >= 2);
	std::vector<real> x(n), y(m); for (size_t i = 0; i < n; ++i) x[i] = (real) i; for (size_t i = 0; i < m; ++i) y[i] = (real) t.r(-2, 2);
	int err; auto s = with_errno(err, [&] { return th::spline(x, y); }); t.check(err != 0, "data sets of unequal size or with fewer than 2 points are reported"); t.is_nan(s((real) 0.5), "spline of invalid data"); t.is_nan(s.deriv((real) 0.5), "derivative of a spline of invalid data");
	if (n < 2) { std::vector<V2> p(n); auto q = with_errno(err, [&] { return th::spline(p); }); t.check(err != 0, "fewer than 2 points are reported"); t.is_nan(q((real) 0.5), "spline of invalid data"); }
}

// ------------------------------------------------------------ units

// The units of the abscissae and of the values are arbitrary: powers of two change no rounding
static real pow2(T& t, int top) { return t.chance(1, 6) ? (real) 1 : std::ldexp((real) 1, (int) t.i(-top, top)); }
LAW(units_of_maps, 30000) {
	real a = (real) t.r(-5, 5), b = t.chance(1, 4) ? a * (1 + (real) t.rlogs(-13, -3)) : (real) t.r(-5, 5), c = (real) t.r(-5, 5), d = (real) t.r(-5, 5), s = (real) t.r(-2, 3), u = pow2(t, 200), v = pow2(t, 200); NOTE(a); NOTE(b); NOTE(c); NOTE(d); NOTE(s); NOTE(u); NOTE(v); t.nontrivial(u != 1);
	if (a == b) t.discard(); real x = a + s * (b - a); NOTE(x);
	t.eq((double) (th::lerp(a * u, b * u, s) / u), (double) th::lerp(a, b, s), "linear interpolation in other units");
	t.eq((double) th::invlerp(a * u, b * u, x * u), (double) th::invlerp(a, b, x), "inverse interpolation in other units"); t.eq((double) (th::remap(a * u, b * u, c * v, d * v, x * u) / v), (double) th::remap(a, b, c, d, x), "remapped value in other units");
	t.eq((double) th::smoothstep(a * u, b * u, x * u), (double) th::smoothstep(a, b, x), "smooth step in other units"); t.eq((double) th::smootherstep(a * u, b * u, x * u), (double) th::smootherstep(a, b, x), "smoother step in other units");
	// exchanging the ends reflects the parameter
	ld w = ((ld) x - a) / ((ld) b - a), e = 4e-16L * (1 + fabsl(w)) + 3e-16L * (fabsl(x) + fabsl(a) + fabsl(b)) / fabsl((ld) b - a); ld ww = std::max(0.0L, std::min(1.0L, w));
	t.close(th::invlerp(a, b, x), w, e, "inverse interpolation between close ends"); t.close(th::smoothstep(a, b, x), ww * ww * (3 - 2 * ww), 4 * e, "smooth step between close ends"); t.close(th::smootherstep(a, b, x), ww * ww * ww * (10 + ww * (6 * ww - 15)), 4 * e, "smoother step between close ends");
	t.close((ld) th::smoothstep(a, b, x) + th::smoothstep(b, a, x), 1, 8 * e, "smooth step of exchanged edges"); t.close((ld) th::smootherstep(a, b, x) + th::smootherstep(b, a, x), 1, 8 * e, "smoother step of exchanged edges");
}
template<unsigned N> static void uvec(T& t) {
	typedef th::vec<real, N> V; V a = point<N>(t), b = point<N>(t); real s = t.chance(1, 4) ? (real) t.i(0, 1) : (real) t.r(-0.5, 1.5), u = pow2(t, 100);
	// nearly parallel, opposite or orthogonal directions
	int k = (int) t.i(0, 3); ld q = t.rlog(-3, -1); if (k < 2) for (unsigned i = 0; i < N; ++i) b[i] = (real) ((k ? -1 : 1) * t.r(0.99, 1.01) * a[i] + q * b[i]); else if (k == 2 && N == 2) { b[0] = -a[1]; b[1] = a[0]; }
	NOTE(a); NOTE(b); NOTE(s); NOTE(u); t.nontrivial(u != 1); ld na = 0, nb = 0, dot = 0; for (unsigned i = 0; i < N; ++i) { na += (ld) a[i] * a[i]; nb += (ld) b[i] * b[i]; dot += (ld) a[i] * b[i]; } na = sqrtl(na); nb = sqrtl(nb); if (na < 1e-3L || nb < 1e-3L) t.discard();
	V l = th::lerp(a, b, s), lu = th::lerp(V(a * u), V(b * u), s); for (unsigned i = 0; i < N; ++i) { t.approx(l[i], a[i] + (ld) s * ((ld) b[i] - a[i]), 1e-14L, 1e-15L * (fabsl(a[i]) + fabsl(b[i])), "linear interpolation of vectors"); t.eq((double) (lu[i] / u), (double) l[i], "linear interpolation of vectors in other units"); }
	ld nl = 0; for (unsigned i = 0; i < N; ++i) nl += (ld) l[i] * l[i]; nl = sqrtl(nl);
	if (nl > 1e-3L && nl * u > 1e-12L) { V m = th::nlerp(V(a * u), V(b * u), s); for (unsigned i = 0; i < N; ++i) t.close(m[i], l[i] / nl, 1e-14L * (na + nb) / nl, "normalised linear interpolation in other units"); }
	// the cross product keeps the angle accurate when the directions are close
	ld cr = 0; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < i; ++j) cr += ((ld) a[i] * b[j] - (ld) a[j] * b[i]) * ((ld) a[i] * b[j] - (ld) a[j] * b[i]); cr = sqrtl(cr); ld w = atan2l(cr, dot), sw = sinl(w); if (sw < 1e-4L) t.discard();
	t.label_if(sw < 1e-2L, "close directions"); int err; V m = with_errno(err, [&] { return th::slerp(V(a * u), V(b * u), s); }); t.check(err == 0, "spherical interpolation reported an error");
	// an error de of the angle moves the result by about de / sin(w)
	// the arctangent is good to 2e-8 of the smaller of the angles to the axis
	const ld de = 3e-8L * sw + 1e-15L / sw, sens = w < 1.57L ? 2 * sw : 4 / (sw * sw), as = 1 + fabsl(s); for (unsigned i = 0; i < N; ++i) t.close((ld) m[i] / u, (a[i] * sinl((1 - (ld) s) * w) + b[i] * sinl((ld) s * w)) / sw, (de * sens * as * as * as + 1e-14L * as / sw) * (na + nb), "spherical linear interpolation in other units");
}
LAW(units_of_vectors, 30000) { if (t.coin()) uvec<2>(t); else uvec<3>(t); }

template<unsigned N> static void ubez(T& t) {
	typedef th::vec<real, N> V; size_t n = t.sz(2, 8, 24); std::vector<V> p, pu; real u = pow2(t, 200), s = t.chance(1, 3) ? (t.coin() ? (real) t.rlog(-12, -2) : 1 - (real) t.rlog(-12, -2)) : (real) t.unit(); bool rep = t.chance(1, 4); for (size_t i = 0; i < n; ++i) { p.push_back(rep && i && t.coin() ? p[t.n(0, i - 1)] : point<N>(t)); pu.push_back(V(p[i] * u)); } NOTE(n); NOTE(u); NOTE(s); NOTE(p[0]); NOTE(p[n - 1]); t.nontrivial(n > 2 && u != 1); t.label_if(rep, "repeated points");
	V r = th::bezier(p, s), ru = th::bezier(pu, s); L w(N, 0), m(N, 0); ld bin = 1; for (size_t i = 0; i < n; ++i) { ld c = bin * powl(s, i) * powl(1 - (ld) s, n - 1 - i); for (unsigned k = 0; k < N; ++k) { w[k] += c * p[i][k]; m[k] = std::max<ld>(m[k], fabsl(p[i][k])); } bin = bin * (n - 1 - i) / (i + 1); }
	for (unsigned k = 0; k < N; ++k) { t.close(r[k], w[k], 4e-16L * n * m[k], "point of the Bezier curve near an end"); t.eq((double) (ru[k] / u), (double) r[k], "point of the Bezier curve in other units"); }
	if (n == 3) { V q = th::quadratic_bezier(pu[0], pu[1], pu[2], s); for (unsigned k = 0; k < N; ++k) t.close((ld) q[k] / u, w[k], 4e-15L * m[k], "point of the quadratic Bezier curve in other units"); }
	if (n == 4) { V q = th::cubic_bezier(pu[0], pu[1], pu[2], pu[3], s); for (unsigned k = 0; k < N; ++k) t.close((ld) q[k] / u, w[k], 4e-15L * m[k], "point of the cubic Bezier curve in other units"); }
	std::vector<V> rev(p.rbegin(), p.rend()); V b = th::bezier(rev, (real) (1 - s)); for (unsigned k = 0; k < N; ++k) t.close(b[k], r[k], 1e-15L * n * n * m[k], "Bezier curve of the reversed points");
}
LAW(units_of_curves, 20000) { if (t.coin()) ubez<2>(t); else ubez<3>(t); }

LAW(units_of_polynomials, 30000) {
	size_t n = t.n(1, 7); L x = abscissae(t, n, t.coin()); real u = pow2(t, 100), v = pow2(t, 200); bool zeros = t.chance(1, 3); std::vector<V2> p, pu; for (size_t i = 0; i < n; ++i) { real y = zeros && t.coin() ? (real) 0 : (real) t.r(-3, 3); p.push_back({(real) x[i], y}); pu.push_back({(real) x[i] * u, y * v}); } t.note("x", str(x)); NOTE(u); NOTE(v); t.nontrivial(n > 2 && u != 1); t.label_if(zeros, "some values are zero");
	int err; auto q = th::lagrange_polynomial(p); auto qu = with_errno(err, [&] { return th::lagrange_polynomial(pu); }); t.check(err == 0, "interpolation in other units reported an error"); t.eq(qu.size(), q.size(), "size of the interpolating polynomial in other units"); real f = v; for (size_t i = 0; i < q.size(); ++i) { t.eq((double) (qu[i] / f), (double) q[i], "coefficient " + std::to_string(i) + " of the interpolating polynomial in other units"); f /= u; }
	// each value weighs on the result linearly
	if (n) { size_t j = t.n(0, n - 1); std::vector<V2> e = p; for (size_t i = 0; i < n; ++i) e[i][1] = i == j; auto l = th::lagrange_polynomial(e); ld mag = 1; for (size_t k = 0; k < n; ++k) if (k != j) mag *= (8 + n + fabsl(x[k])) / fabsl(x[j] - x[k]); for (size_t i = 0; i < n; ++i) t.close(l((real) x[i]), i == j, 1e-14L * mag, "basis polynomial at the nodes"); }
	unsigned order = (unsigned) t.n(0, 6); real a = (real) t.r(-2, 2), b = a + (real) t.rnz(0.5, 3), w = (real) t.r(0.3, 1.5); NOTE(order); NOTE(a); NOTE(b); NOTE(w);
	th::real_function g = [&](real z) { return (real) sinl((ld) w * z + 1); }, gu = [&](real z) { return (real) sinl((ld) w * (z / u) + 1) * v; };
	auto nd = th::chebyshev_nodes(a, b, order + 1), nu = th::chebyshev_nodes(a * u, b * u, order + 1); for (unsigned i = 0; i <= order; ++i) t.eq((double) (nu[i] / u), (double) nd[i], "Chebyshev nodes in other units");
	auto same = [&](const th::polynomial<real>& A, const th::polynomial<real>& B, const char* what) { t.eq(B.size(), A.size(), what); real f = v; for (size_t i = 0; i < A.size(); ++i) { t.eq((double) (B[i] / f), (double) A[i], what); f /= u; } };
	same(th::interpolate_chebyshev(g, a, b, order), th::interpolate_chebyshev(gu, a * u, b * u, order), "Chebyshev interpolation in other units"); same(th::interpolate_grid(g, a, b, order), th::interpolate_grid(gu, a * u, b * u, order), "grid interpolation in other units");
}

LAW(units_of_splines, 30000) {
	size_t n = t.sz(2, 12, 60); L x, y; ld at = t.r(-3, 3); bool rough = t.coin(), big = t.chance(1, 4); if (big) at = t.rlogs(2, 5); for (size_t i = 0; i < n; ++i) { x.push_back((real) at); at += rough ? t.rlog(-4, 1) : t.r(0.3, 1.5); y.push_back(t.chance(1, 6) ? 0 : (ld) (real) t.r(-5, 5)); } if (t.chance(1, 8)) for (auto& q : y) q = y[0]; for (size_t i = 1; i < n; ++i) if (x[i] - x[i - 1] < 1e-6L) t.discard();
	real u = pow2(t, 60), v = pow2(t, 200); t.note("x", str(x)); t.note("y", str(y)); NOTE(u); NOTE(v); t.nontrivial(n > 3 && u != 1); t.label_if(rough, "uneven abscissae");
	std::vector<V2> p, pu; std::vector<real> X, Y; for (size_t i = 0; i < n; ++i) { p.push_back({(real) x[i], (real) y[i]}); pu.push_back({(real) x[i] * u, (real) y[i] * v}); X.push_back((real) x[i] * u); Y.push_back((real) y[i] * v); }
	int err; th::spline s(p), su = with_errno(err, [&] { return th::spline(pu); }); t.check(err == 0, "a spline reported an error in other units"); th::spline sd = with_errno(err, [&] { return th::spline(X, Y); }); t.check(err == 0, "a spline reported an error in other units");
	L m = second(x, y); size_t cnt = 0; for (auto it = s.begin(); it != s.end(); ++it) { t.eq((double) it->x, (double) x[cnt], "first abscissa of a piece"); ++cnt; } t.eq(cnt, n - 1, "number of pieces");
	for (int k = 0; k < 6; ++k) {
		real z = k < 2 ? (real) x[t.n(0, n - 1)] : k == 2 ? (real) (x[0] - t.r(0, 2) * (x[1] - x[0])) : k == 3 ? (real) (x[n - 1] + t.r(0, 2) * (x[n - 1] - x[n - 2])) : (real) (x[0] + t.unit() * (x[n - 1] - x[0])); NOTE(z);
		t.eq((double) (su(z * u) / v), (double) s(z), "value of the spline in other units"); t.eq((double) (su.deriv(z * u) / v * u), (double) s.deriv(z), "derivative of the spline in other units"); t.close((ld) sd(z * u) / v, s(z), 1e-13L * (1 + fabsl(s(z))) + 1e-12L * fabsl(s.deriv(z)), "value of the spline from two data sets in other units");
		size_t i = 0; while (i + 2 < n && z >= x[i + 1]) ++i; ld h = x[i + 1] - x[i], w = z - x[i], b = (y[i + 1] - y[i]) / h - h * (2 * m[i] + m[i + 1]) / 6, c = m[i] / 2, dd = (m[i + 1] - m[i]) / (6 * h); ld M = 0; for (ld q : m) M = std::max(M, fabsl(q)); ld r = std::max(1.0L, fabsl(w) / h), ym = 0; for (ld q : y) ym = std::max(ym, fabsl(q));
		// rounding: relative to the slopes and curvatures which enter, spread by the tridiagonal system
		ld ss = 0; for (size_t j = 1; j < n; ++j) ss = std::max(ss, fabsl((y[j] - y[j - 1]) / (x[j] - x[j - 1]))); ld eb = 1e-14L * (ss + h * M) * r * r; t.close(s(z), y[i] + w * (b + w * (c + w * dd)), (eb * h) * r * 20 + 1e-15L * ym, "value of an uneven spline"); t.close(s.deriv(z), b + w * (2 * c + 3 * w * dd), eb * 60, "derivative of an uneven spline");
	}
}

// Hundreds of knots: the pieces join smoothly, pass by the data and end with no curvature
LAW(long_splines, 200) {
	size_t n = t.n(100, 1200); std::vector<V2> p; std::vector<real> X, Y; ld at = t.r(-5, 5), big = 1; for (size_t i = 0; i < n; ++i) { X.push_back((real) at); Y.push_back((real) t.r(-5, 5)); p.push_back({X[i], Y[i]}); at += t.r(0.5, 2); if (i) big = std::max(big, fabsl(((ld) Y[i] - Y[i - 1]) / ((ld) X[i] - X[i - 1]))); } NOTE(n); t.nontrivial(); int err; const ld e = 1e-10L * big * (1 + n * 1e-2L);
	for (int k = 0; k < 2; ++k) { th::spline s = with_errno(err, [&] { return k ? th::spline(X, Y) : th::spline(p); }); t.check(err == 0, "a long spline reported an error"); t.eq(s.nodes.size(), n - 1, "number of pieces of a long spline"); if (s.nodes.size() != n - 1) return;
		for (size_t i = 0; i + 1 < n; ++i) { auto& q = s.nodes[i]; ld h = (ld) X[i + 1] - X[i]; t.close(q(X[i]), Y[i], e, "long spline at a knot"); t.close(q(X[i + 1]), Y[i + 1], e, "long spline at the next knot"); ld d2 = 2 * ((ld) q.c + 3 * (ld) q.d * h), d1 = (ld) q.b + h * (2 * (ld) q.c + 3 * (ld) q.d * h); if (i + 2 < n) { t.close(d1, s.nodes[i + 1].b, 10 * e, "slope of a long spline across a knot"); t.close(d2, 2 * (ld) s.nodes[i + 1].c, 20 * e, "curvature of a long spline across a knot"); } else t.close(d2, 0, 20 * e, "curvature at the end of a long spline"); real z = (real) (X[i] + t.unit() * h); t.eq((double) s(z), (double) q(z), "long spline evaluated with the piece of its interval"); t.eq((double) s.deriv(z), (double) q.deriv(z), "derivative of a long spline with the piece of its interval"); }
		t.close(s.nodes[0].c, 0, 10 * e, "curvature at the beginning of a long spline"); }
}
// Many nodes: they are all different, and a high order is not refused
LAW(many_nodes, 400) {
	unsigned n = (unsigned) t.n(20, 300); real a = (real) t.r(-3, 1), b = a + (real) t.r(0.5, 4); NOTE(n); NOTE(a); NOTE(b); t.nontrivial(); auto q = th::chebyshev_nodes(a, b, n); t.eq(q.size(), (size_t) n, "number of Chebyshev nodes"); for (unsigned i = 0; i < n; ++i) t.close(q[i], ((ld) a + b) / 2 + ((ld) b - a) / 2 * cosl((2 * i + 1) * PIl / (2 * n)), 1e-14L * 8, "Chebyshev node of a high order");
	unsigned o = (unsigned) t.n(20, 60); NOTE(o); std::vector<real> seen; th::real_function f = [&](real x) { seen.push_back(x); return (real) 1; }; int err; with_errno(err, [&] { return th::interpolate_grid(f, a, b, o); }); t.check(err == 0, "grid interpolation of a high order reported an error"); for (unsigned i = 0; i <= o; ++i) { bool in = false; for (real x : seen) in |= fabsl(x - (a + ((ld) b - a) * i / o)) < 1e-13L * 8; t.check(in, "a point of the grid was not sampled"); } seen.clear(); with_errno(err, [&] { return th::interpolate_chebyshev(f, a, b, o); }); t.check(err == 0, "Chebyshev interpolation of a high order reported an error"); t.check(seen.size() >= o + 1, "a node was not sampled");
}
