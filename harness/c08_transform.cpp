// C08: geometric transformations and quaternions
#include "linref.hpp"
using namespace pbt;
namespace alg = th::algebra;
typedef th::quat<real> Q;
typedef std::array<ld, 4> q4;

static q4 qmul(q4 p, q4 q) {
	return {p[0]*q[0] - p[1]*q[1] - p[2]*q[2] - p[3]*q[3], p[0]*q[1] + p[1]*q[0] + p[2]*q[3] - p[3]*q[2],
		p[0]*q[2] - p[1]*q[3] + p[2]*q[0] + p[3]*q[1], p[0]*q[3] + p[1]*q[2] - p[2]*q[1] + p[3]*q[0]};
}
static q4 ref(const Q& q) { return {q.a, q.b, q.c, q.d}; }
static void q_is(T& t, const Q& g, q4 w, ld e, const char* m) {
	t.close(g.a, w[0], e, m); t.close(g.b, w[1], e, m); t.close(g.c, w[2], e, m); t.close(g.d, w[3], e, m);
}
// Angles: any, small, next to multiples of a quarter of a turn, many turns
static double gen_angle(T& t) {
	switch (t.choice(5)) { case 0: return t.rlogs(-14, -1); case 1: return (double) t.i(-8, 8) * (double) (PIl / 2) + t.rlogs(-12, -2); case 2: return (double) t.i(-8, 8) * (double) (PIl / 2); case 3: return t.r(-400, 400); default: return t.r(-8, 8); }
}
static Q gen_q(T& t) { double u = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-20, 30)) : 1; if (t.chance(1, 8)) { Q q(0, 0, 0, 0); double x = u * t.rnz(-5, 5); switch (t.choice(4)) { case 0: q.a = x; break; case 1: q.b = x; break; case 2: q.c = x; break; default: q.d = x; } return q; } if (t.chance(1, 10)) { Q q(t.r(-5, 5), t.r(-5, 5), t.r(-5, 5), t.r(-5, 5)); double n = std::sqrt(q.a*q.a + q.b*q.b + q.c*q.c + q.d*q.d); if (n > 0.1) { double f = (1 + t.rlogs(-13, -2)) / n; return Q(q.a * f, q.b * f, q.c * f, q.d * f); } } return t.chance(1, 4) ? Q((double) t.i(-3, 3), (double) t.i(-3, 3), (double) t.i(-3, 3), (double) t.i(-3, 3)) : Q(u * t.r(-5, 5), u * t.r(-5, 5), u * t.r(-5, 5), u * t.r(-5, 5)); }
static std::string qs(const Q& q) { char b[160]; snprintf(b, sizeof b, "%.17g,%.17g,%.17g,%.17g", q.a, q.b, q.c, q.d); return b; }

// Rotation of v by the angle around the unit axis k, right-handed (Rodrigues)
static std::vector<ld> rodrigues(const dvec& v, ld th, const dvec& axis) {
	ld n = sqrtl((ld) axis[0]*axis[0] + (ld) axis[1]*axis[1] + (ld) axis[2]*axis[2]);
	ld k[3] = {axis[0]/n, axis[1]/n, axis[2]/n}, d = k[0]*v[0] + k[1]*v[1] + k[2]*v[2], c = cosl(th), s = sinl(th);
	return {v[0]*c + (k[1]*v[2] - k[2]*v[1])*s + k[0]*d*(1-c), v[1]*c + (k[2]*v[0] - k[0]*v[2])*s + k[1]*d*(1-c), v[2]*c + (k[0]*v[1] - k[1]*v[0])*s + k[2]*d*(1-c)};
}
static dvec gen_axis(T& t) {
	for (int i = 0; i < 8; ++i) { dvec a = t.chance(1, 3) ? dvec{(double) t.i(-2, 2), (double) t.i(-2, 2), (double) t.i(-2, 2)} : t.reals(3, -3, 3); if (std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(a[2]) > 0.2) return a; }
	return {1, 2, -1};
}
static std::vector<ld> app(const th::mat<real>& m, const std::vector<ld>& v) {
	std::vector<ld> r(m.rows(), 0); for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) r[i] += (ld) m(i, j) * v[j]; return r;
}
static void near(T& t, const std::vector<ld>& g, const std::vector<ld>& w, ld e, const char* m) {
	for (size_t i = 0; i < w.size(); ++i) t.close((double) g[i], w[i], e, std::string(m) + " [" + std::to_string(i) + "]");
}
static void rigid(T& t, const th::mat<real>& m, unsigned n, const char* what) {
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { ld s = 0; for (unsigned k = 0; k < n; ++k) s += (ld) m(k, i) * m(k, j); t.close((double) s, i == j ? 1 : 0, 1e-14, std::string(what) + " is orthogonal"); }
}
static th::mat<real> D(const th::mat<real>& m) { return m; }
template<unsigned N, unsigned K> static th::mat<real> D(const th::mat<real, N, K>& s) { th::mat<real> m(s.rows(), s.cols()); for (unsigned i = 0; i < s.rows(); ++i) for (unsigned j = 0; j < s.cols(); ++j) m(i, j) = s(i, j); return m; }

LAW(axis_rotations, 40000) {
	double a = gen_angle(t); dvec v = t.reals(3, -10, 10), ax = gen_axis(t); unsigned n = (unsigned) t.n(3, 5);
	NOTE(a); NOTE(v); NOTE(ax); NOTE(n); t.nontrivial(a != 0);
	std::vector<ld> vl(v.begin(), v.end());
	auto is = [&](const th::mat<real>& m, const dvec& axis, const char* what) {
		if (m.rows() < 3 || m.cols() != m.rows()) t.fail(std::string(what) + ": wrong shape");
		std::vector<ld> x = vl; x.resize(3); while (x.size() < m.rows()) x.push_back((ld) x.size());
		auto w = rodrigues(v, a, axis); for (unsigned i = 3; i < m.rows(); ++i) w.push_back(x[i]);
		near(t, app(m, x), w, 1e-13, what); rigid(t, m, 3, what);
		for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) if (i >= 3 || j >= 3) t.close(m(i, j), i == j ? 1 : 0, 0, std::string(what) + " outside the rotated space");
	};
	double l = std::sqrt(ax[0]*ax[0] + ax[1]*ax[1] + ax[2]*ax[2]); dvec u = {ax[0]/l, ax[1]/l, ax[2]/l};
	is(alg::rotation_3d<th::mat<real>>(a, dynv(u), n, n), u, "rotation_3d");
	is(D(alg::rotation_3d<th::mat<real, 3, 3>>(a, stav<3>(u))), u, "static rotation_3d");
	is(D(alg::rotation_3d<th::mat<real, 4, 4>>(a, stav<3>(u))), u, "static homogeneous rotation_3d");
	is(alg::rotation_3d_xaxis<th::mat<real>>(a, n, n), {1, 0, 0}, "rotation_3d_xaxis");
	is(alg::rotation_3d_yaxis<th::mat<real>>(a, n, n), {0, 1, 0}, "rotation_3d_yaxis");
	is(alg::rotation_3d_zaxis<th::mat<real>>(a, n, n), {0, 0, 1}, "rotation_3d_zaxis");
	is(D(alg::rotation_3d_xaxis<th::mat<real, 3, 3>>(a)), {1, 0, 0}, "static rotation_3d_xaxis");
	is(D(alg::rotation_3d_yaxis<th::mat<real, 3, 3>>(a)), {0, 1, 0}, "static rotation_3d_yaxis");
	is(D(alg::rotation_3d_zaxis<th::mat<real, 3, 3>>(a)), {0, 0, 1}, "static rotation_3d_zaxis");
	is(D(alg::rotation_3d_xaxis<th::mat<real, 4, 4>>(a)), {1, 0, 0}, "static homogeneous rotation_3d_xaxis");
	is(D(alg::rotation_3d_yaxis<th::mat<real, 4, 4>>(a)), {0, 1, 0}, "static homogeneous rotation_3d_yaxis");
	is(D(alg::rotation_3d_zaxis<th::mat<real, 4, 4>>(a)), {0, 0, 1}, "static homogeneous rotation_3d_zaxis");
}

LAW(plane_rotations, 30000) {
	double a = gen_angle(t), b = gen_angle(t); dvec v = t.reals(2, -10, 10); unsigned n = (unsigned) t.n(2, 4);
	NOTE(a); NOTE(b); NOTE(v); t.nontrivial(a != 0);
	std::vector<ld> w = {v[0] * cosl(a) - v[1] * sinl(a), v[0] * sinl(a) + v[1] * cosl(a)}, x(v.begin(), v.end());
	for (unsigned i = 2; i < n; ++i) { w.push_back(7); x.push_back(7); }
	auto A = alg::rotation_2d<th::mat<real>>(a, n, n), B = alg::rotation_2d<th::mat<real>>(b, n, n), C = alg::rotation_2d<th::mat<real>>(a + b, n, n);
	near(t, app(A, x), w, 1e-13, "rotation_2d"); rigid(t, A, n, "rotation_2d");
	th::mat<real> P = A * B; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) t.close(P(i, j), C(i, j), 2e-13, "angles add under composition");
	near(t, app(D(alg::rotation_2d<th::mat<real, 2, 2>>(a)), {v[0], v[1]}), {w[0], w[1]}, 1e-13, "static rotation_2d");
	cplx r = cplx::rotor(a) * cplx(v[0], v[1]); t.close(r.a, w[0], 1e-13, "complex rotor"); t.close(r.b, w[1], 1e-13, "complex rotor");
}

LAW(translations_diagonals_identities, 30000) {
	size_t n = t.sz(1, 5, 20); const double un = gen_unit(t); dvec d = t.reals(n, -10, 10), v = t.reals(n, -10, 10); for (auto& x : d) x *= un; for (auto& x : v) x *= un; NOTE(d); NOTE(v); t.nontrivial(n > 1);
	auto M = alg::translation<th::mat<real>>(dynv(d), (unsigned) n + 1, (unsigned) n + 1);
	std::vector<ld> x(v.begin(), v.end()), w(n); for (size_t i = 0; i < n; ++i) w[i] = (ld) v[i] + d[i]; x.push_back(1); w.push_back(1);
	near(t, app(M, x), w, 2e-15 * un * 20, "translation"); for (unsigned i = 0; i <= n; ++i) for (unsigned j = 0; j <= n; ++j) t.close(M(i, j), i == j ? 1 : j == n ? d[i] : 0, 0, "translation");
	if (n == 3) near(t, app(D(alg::translation<th::mat<real, 4, 4>>(stav<3>(d))), x), w, 2e-15 * un * 20, "static translation");
	auto G = alg::diagonal<th::mat<real>>(dynv(d), (unsigned) n, (unsigned) n); if (t.coin()) { G = dyn(gen_rm(t, n, n)); alg::diagonal(G, dynv(d)); } auto I = alg::identity<th::mat<real>>((unsigned) n, (unsigned) n); auto H = alg::hilbert<th::mat<real>>((unsigned) n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		t.close(G(i, j), i == j ? d[i] : 0, 0, "diagonal"); t.close(I(i, j), i == j ? 1 : 0, 0, "identity"); t.close(H(i, j), 1.0L / (i + j + 1), 1e-15, "hilbert");
	}
	if (n == 3) { auto S = D(alg::diagonal<th::mat<real, 3, 3>>(stav<3>(d))); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.close(S(i, j), i == j ? d[i] : 0, 0, "static diagonal"); }
	// the symplectic matrix J: J J = -1, J^T = -J, upper right block is the identity
	unsigned h = (unsigned) n; auto J = alg::symplectic<th::mat<real>>(2 * h, 2 * h);
	for (unsigned i = 0; i < 2 * h; ++i) for (unsigned j = 0; j < 2 * h; ++j) t.close(J(i, j), j == i + h ? 1 : i == j + h ? -1 : 0, 0, "symplectic");
}

LAW(projections, 30000) {
	double un = gen_unit(t), l = t.r(-5, 3), r = l + t.r(0.5, 6), b = t.r(-5, 3), p = b + t.r(0.5, 6), n = t.r(0.2, 3), f = n + t.r(0.5, 50); if (t.chance(1, 4)) l = -r; if (t.chance(1, 4)) b = -p; if (l == r || b == p) t.discard();
	if (std::fabs(r - l) < 0.1 || std::fabs(p - b) < 0.1) t.discard(); l *= un; r *= un; b *= un; p *= un; n *= un; f *= un;
	double ux = t.r(-1, 1), uy = t.r(-1, 1), uz = t.r(0, 1); NOTE(l); NOTE(r); NOTE(b); NOTE(p); NOTE(n); NOTE(f); t.nontrivial();
	bool sta = t.coin();
	auto O = sta ? D(alg::ortho<th::mat<real, 4, 4>>(l, r, b, p, n, f)) : alg::ortho<th::mat<real>>(l, r, b, p, n, f, 4, 4);
	auto M = sta ? D(alg::perspective<th::mat<real, 4, 4>>(l, r, b, p, n, f)) : alg::perspective<th::mat<real>>(l, r, b, p, n, f, 4, 4);
	// a point of the view volume with the normalized coordinates (ux, uy) on the plane at depth z
	ld z = n + uz * ((ld) f - n), xn = l + (ux + 1) / 2 * ((ld) r - l), yn = b + (uy + 1) / 2 * ((ld) p - b);
	auto o = app(O, {xn, yn, -z, 1});
	t.close((double) o[0], ux, 1e-12, "ortho x"); t.close((double) o[1], uy, 1e-12, "ortho y"); t.close((double) o[2], -1 + 2 * uz, 1e-12, "ortho z"); t.close((double) o[3], 1, 1e-12, "ortho w");
	auto q = app(M, {xn * z / n, yn * z / n, -z, 1});
	t.close((double) (q[0] / q[3]), ux, 1e-12, "perspective x"); t.close((double) (q[1] / q[3]), uy, 1e-12, "perspective y");
	t.close((double) q[3], z, 1e-14 * z, "perspective divisor is the depth");
	t.close((double) (q[2] / q[3]), ((f + n) * z - 2 * (ld) f * n) / ((f - n) * z), 1e-12, "perspective depth");
	double fov = t.r(2, 170), asp = t.r(0.4, 2.5); NOTE(fov); NOTE(asp);
	auto V = sta ? D(alg::perspective_fov<th::mat<real, 4, 4>>(fov, asp, n, f)) : alg::perspective_fov<th::mat<real>>(fov, asp, n, f, 4, 4);
	if (V.rows() != 4 || V.cols() != 4) t.fail("perspective_fov gives a 4 by 4 matrix");
	ld h = n * tanl(fov / 360.0L * PIl); auto s = app(V, {ux * h * asp * z / n, uy * h * z / n, -z, 1});
	t.close((double) (s[0] / s[3]), ux, 1e-12, "perspective_fov x"); t.close((double) (s[1] / s[3]), uy, 1e-12, "perspective_fov y");
}

LAW(look_at, 30000) {
	dvec c = t.reals(3, -5, 5), dir = gen_axis(t), up = gen_axis(t), g(3); double un = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-12, 30)) : 1, dl = un * t.r(0.5, 4); for (auto& x : c) x *= un; if (t.chance(1, 4)) { double uu = std::ldexp(1.0, (int) t.i(-20, 20)); for (auto& x : up) x *= uu; } for (int i = 0; i < 3; ++i) g[i] = c[i] + dir[i] * dl;
	auto n3 = [](const dvec& v) { return sqrtl((ld) v[0]*v[0] + (ld) v[1]*v[1] + (ld) v[2]*v[2]); };
	ld cr[3] = {(ld) dir[1]*up[2] - (ld) dir[2]*up[1], (ld) dir[2]*up[0] - (ld) dir[0]*up[2], (ld) dir[0]*up[1] - (ld) dir[1]*up[0]};
	if (sqrtl(cr[0]*cr[0] + cr[1]*cr[1] + cr[2]*cr[2]) < 0.1 * n3(dir) * n3(up)) t.discard();
	NOTE(c); NOTE(g); NOTE(up); t.nontrivial();
	th::mat<real> M = t.coin() ? D(alg::look_at<th::mat<real, 4, 4>>(stav<3>(c), stav<3>(g), stav<3>(up))) : alg::look_at<th::mat<real>>(dynv(c), dynv(g), dynv(up));
	if (M.rows() != 4 || M.cols() != 4) t.fail("look_at gives a 4 by 4 matrix");
	rigid(t, M, 3, "look_at");
	near(t, app(M, {c[0], c[1], c[2], 1}), {0, 0, 0, 1}, 1e-13 * un, "the camera is at the origin");
	ld dist = 0; for (int i = 0; i < 3; ++i) dist += ((ld) g[i] - c[i]) * ((ld) g[i] - c[i]); dist = sqrtl(dist);
	near(t, app(M, {g[0], g[1], g[2], 1}), {0, 0, -dist, 1}, 1e-13 * un, "the target is straight ahead");
	auto u = app(M, {up[0], up[1], up[2], 0}); t.close((double) u[0], 0, 1e-13 * n3(up), "up has no horizontal component"); t.check(u[1] > 0, "up points upwards");
}

LAW(sphere_inversion, 20000) {
	size_t n = t.n(1, 5); dvec c = t.reals(n, -4, 4), p = t.reals(n, -4, 4); const double un = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-20, 30)) : 1; double r = un * t.r(0.3, 4); for (auto& x : c) x *= un; for (auto& x : p) x *= un; if (t.chance(1, 4)) for (auto& x : c) x = 0; ld d2 = 0; for (size_t i = 0; i < n; ++i) d2 += ((ld) p[i] - c[i]) * ((ld) p[i] - c[i]);
	if (d2 < 0.05 * un * un) t.discard();
	NOTE(c); NOTE(p); NOTE(r); t.nontrivial();
	auto q = alg::sphere_inversion(dynv(p), dynv(c), r);
	std::vector<ld> w(n); for (size_t i = 0; i < n; ++i) w[i] = c[i] + ((ld) p[i] - c[i]) * r * r / d2;
	vec_is(t, q, w, 1e-13 * un * (1 + r * r / d2), "sphere_inversion");
	auto back = alg::sphere_inversion(q, dynv(c), r); vec_is(t, back, std::vector<ld>(p.begin(), p.end()), 1e-12 * un * (1 + d2 / un / un), "the inversion is an involution");
}

LAW(quaternion_algebra, 50000) {
	Q p = gen_q(t), q = gen_q(t), s = gen_q(t); double k = t.chance(1, 3) ? gen_factor(t, 4) : t.rnz(-4, 4); if (t.chance(1, 10)) q = p; t.note("p", qs(p)); t.note("q", qs(q)); t.note("s", qs(s)); NOTE(k); t.nontrivial();
	q4 P = ref(p), R = ref(q), S = ref(s); auto mag = [](const q4& x) { return std::max(std::max(fabsl(x[0]), fabsl(x[1])), std::max(fabsl(x[2]), fabsl(x[3]))); }; const ld mp = mag(P), mq = mag(R), ms = mag(S), e = 1e-15L * (mp + mq + fabsl(k) + fabsl(k) * mp), em = 2e-15L * mp * mq;
	q4 add, sub; for (int i = 0; i < 4; ++i) { add[i] = P[i] + R[i]; sub[i] = P[i] - R[i]; }
	q_is(t, p + q, add, e, "+"); q_is(t, p - q, sub, e, "-"); q_is(t, p * q, qmul(P, R), em, "*");
	q_is(t, -p, {-P[0], -P[1], -P[2], -P[3]}, 0, "unary -"); q_is(t, +p, P, 0, "unary +");
	q_is(t, p * k, {P[0]*k, P[1]*k, P[2]*k, P[3]*k}, e, "* scalar"); q_is(t, k * p, {P[0]*k, P[1]*k, P[2]*k, P[3]*k}, e, "scalar *");
	q_is(t, p + k, {P[0] + k, P[1], P[2], P[3]}, e, "+ scalar"); q_is(t, k + p, {P[0] + k, P[1], P[2], P[3]}, e, "scalar +");
	q_is(t, p - k, {P[0] - k, P[1], P[2], P[3]}, e, "- scalar"); q_is(t, k - p, {k - P[0], -P[1], -P[2], -P[3]}, e, "scalar -");
	Q x = p; x += q; q_is(t, x, add, e, "+="); x = p; x -= q; q_is(t, x, sub, e, "-="); x = p; x *= q; q_is(t, x, qmul(P, R), em, "*=");
	x = p; x *= k; q_is(t, x, {P[0]*k, P[1]*k, P[2]*k, P[3]*k}, e, "*= scalar");
	q_is(t, p.conjugate(), {P[0], -P[1], -P[2], -P[3]}, 0, "conjugate");
	ld n2 = P[0]*P[0] + P[1]*P[1] + P[2]*P[2] + P[3]*P[3], m2 = R[0]*R[0] + R[1]*R[1] + R[2]*R[2] + R[3]*R[3];
	t.close(p.sqr_norm(), n2, 2e-15L * n2, "sqr_norm"); t.close(p.norm(), sqrtl(n2), 2e-15L * sqrtl(n2), "norm");
	t.close((p * q).sqr_norm(), n2 * m2, 1e-14L * n2 * m2, "the norm is multiplicative");
	q_is(t, (p * q) * s, ref(p * (q * s)), 2e-14L * mp * mq * ms, "associativity");
	q_is(t, (p * q).conjugate(), ref(q.conjugate() * p.conjugate()), em * 2, "conjugation reverses products");
	t.check(p.Re() == p.a && p.Im1() == p.b && p.Im2() == p.c && p.Im3() == p.d && Re(p) == p.a && Im1(p) == p.b && Im2(p) == p.c && Im3(p) == p.d, "components");
	x = p; x = x; q_is(t, x, P, 0, "self assignment");
	if (m2 > 1e-14L) {
		q4 inv = {R[0]/m2, -R[1]/m2, -R[2]/m2, -R[3]/m2};
		q_is(t, q.inverse(), inv, 3e-15L / sqrtl(m2), "inverse"); q_is(t, p / q, qmul(P, inv), 1e-14L * mp / sqrtl(m2), "/"); x = p; x /= q; q_is(t, x, qmul(P, inv), 1e-14L * mp / sqrtl(m2), "/=");
		q_is(t, k / q, {k*inv[0], k*inv[1], k*inv[2], k*inv[3]}, 1e-14L * fabsl(k) / sqrtl(m2), "scalar /");
		x = q; Q& y = x.invert(); q_is(t, x, inv, 3e-15L / sqrtl(m2), "invert"); t.check(&y == &x, "invert returns itself");
		q_is(t, q * q.inverse(), {1, 0, 0, 0}, 1e-14L, "q q^-1 = 1");
	}
	if (std::fabs(k) > 1e-14) { q_is(t, p / k, {P[0]/k, P[1]/k, P[2]/k, P[3]/k}, 1e-15L * mp / fabsl(k), "/ scalar"); x = p; x /= k; q_is(t, x, {P[0]/k, P[1]/k, P[2]/k, P[3]/k}, 1e-15L * mp / fabsl(k), "/= scalar"); }
	std::array<double, 4> arr = {{1, 2, 3, 4}}; x = arr; q_is(t, x, {1, 2, 3, 4}, 0, "assignment from an array");
}

LAW(quaternion_rotations, 40000) {
	double a = gen_angle(t), b = gen_angle(t); dvec v = t.reals(3, -10, 10), ax = gen_axis(t), bx = gen_axis(t); const double ua = std::ldexp(1.0, t.chance(1, 4) ? (int) t.i(-30, 30) : 0), uv = gen_unit(t); for (auto& x : ax) x *= ua; for (auto& x : v) x *= uv; NOTE(a); NOTE(b); NOTE(v); NOTE(ax); NOTE(bx); t.nontrivial(a != 0);
	auto w = rodrigues(v, a, ax);
	vec_is(t, Q::rotate(dynv(v), a, dynv(ax)), w, 2e-13 * uv, "rotate"); vec_is(t, Q::rotate(stav<3>(v), a, stav<3>(ax)), w, 2e-13 * uv, "static rotate");
	Q q = Q::rotation(a, stav<3>(ax)), r = Q::rotation(b, dynv(bx));
	t.close(q.norm(), 1, 1e-13, "rotation quaternions have norm one");
	vec_is(t, q.transform(dynv(v)), w, 2e-13 * uv, "rotation, transform"); vec_is(t, q.transform(stav<3>(v)), w, 2e-13 * uv, "rotation, static transform");
	dvec wd = {(double) w[0], (double) w[1], (double) w[2]};
	vec_is(t, (r * q).transform(dynv(v)), rodrigues(wd, b, bx), 2e-13 * uv, "products compose rotations");
	// the transformation does not depend on the norm of the quaternion
	double k = t.chance(1, 3) ? std::ldexp(t.coin() ? 1.0 : -1.0, (int) t.i(-18, 30)) : t.rnz(-3, 3); if (std::fabs(k) < 1e-6) k = 1; vec_is(t, (q * k).transform(dynv(v)), w, 2e-13 * uv, "transform by a quaternion of any norm");
}

// Flipped limits, wide fields of view, large Hilbert matrices, default sizes
LAW(projections_flipped_and_wide, 15000) {
	double l = t.r(-5, 3), r = l + t.r(0.5, 6), b = t.r(-5, 3), p = b + t.r(0.5, 6), n = t.r(0.2, 3), f = n + t.r(0.5, 50); if (t.coin()) std::swap(l, r); if (t.coin()) std::swap(b, p); NOTE(l); NOTE(r); NOTE(b); NOTE(p); NOTE(n); NOTE(f); t.nontrivial(l > r || b > p); t.label_if(l > r, "right < left"); t.label_if(b > p, "top < bottom");
	double ux = t.r(-1, 1), uy = t.r(-1, 1), uz = t.r(0, 1); ld z = n + uz * ((ld) f - n), xn = l + (ux + 1) / 2 * ((ld) r - l), yn = b + (uy + 1) / 2 * ((ld) p - b); bool sta = t.coin();
	auto O = sta ? D(alg::ortho<th::mat<real, 4, 4>>(l, r, b, p, n, f)) : alg::ortho<th::mat<real>>(l, r, b, p, n, f, 4, 4); auto M = sta ? D(alg::perspective<th::mat<real, 4, 4>>(l, r, b, p, n, f)) : alg::perspective<th::mat<real>>(l, r, b, p, n, f, 4, 4);
	auto o = app(O, {xn, yn, -z, 1}); t.close((double) o[0], ux, 1e-12, "ortho x"); t.close((double) o[1], uy, 1e-12, "ortho y"); t.close((double) o[2], -1 + 2 * uz, 1e-12, "ortho z"); t.close((double) o[3], 1, 1e-12, "ortho w");
	auto q = app(M, {xn * z / n, yn * z / n, -z, 1}); t.close((double) (q[0] / q[3]), ux, 1e-12, "perspective x"); t.close((double) (q[1] / q[3]), uy, 1e-12, "perspective y"); t.close((double) q[3], z, 1e-14 * z, "perspective divisor is the depth"); t.close((double) (q[2] / q[3]), ((f + n) * z - 2 * (ld) f * n) / ((f - n) * z), 1e-12, "perspective depth");
	double fov = t.coin() ? 180 - t.rlog(0, 1) : t.rlog(-2, 0.3), asp = t.rlog(-1, 1); NOTE(fov); NOTE(asp); auto V = sta ? D(alg::perspective_fov<th::mat<real, 4, 4>>(fov, asp, n, f)) : alg::perspective_fov<th::mat<real>>(fov, asp, n, f, 4, 4); ld h = n * tanl(fov / 360.0L * PIl); auto s = app(V, {ux * h * asp * z / n, uy * h * z / n, -z, 1}); t.close((double) (s[0] / s[3]), ux, 1e-12, "perspective_fov x"); t.close((double) (s[1] / s[3]), uy, 1e-12, "perspective_fov y"); t.close((double) s[3], z, 1e-14 * z, "perspective_fov divisor is the depth"); t.close((double) (s[2] / s[3]), ((f + n) * z - 2 * (ld) f * n) / ((f - n) * z), 1e-12, "perspective_fov depth");
}
LAW(hilbert_matrices, 300) {
	unsigned n = (unsigned) t.sz(1, 20, 140, 3); NOTE(n); t.nontrivial(n > 1); auto H = alg::hilbert<th::mat<real>>(n); if (H.rows() != n || H.cols() != n) t.fail("shape"); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) t.close(H(i, j), 1.0L / (i + j + 1), 4e-16L / (i + j + 1), "hilbert"); auto S = alg::hilbert<th::mat<real, 12, 12>>(); for (unsigned i = 0; i < 12; ++i) for (unsigned j = 0; j < 12; ++j) t.close(S(i, j), 1.0L / (i + j + 1), 4e-16L, "static hilbert");
}
LAW(static_symplectic, 200) {
	unsigned k = (unsigned) t.choice(2); NOTE(k); t.nontrivial(); int err = 0; auto J2 = alg::symplectic<th::mat<real, 2, 2>>(); auto J6 = alg::symplectic<th::mat<real, 6, 6>>(); for (unsigned i = 0; i < 6; ++i) for (unsigned j = 0; j < 6; ++j) t.close(J6(i, j), j == i + 3 ? 1 : i == j + 3 ? -1 : 0, 0, "symplectic"); for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) t.close(J2(i, j), j == i + 1 ? 1 : i == j + 1 ? -1 : 0, 0, "symplectic");
	double v = 0; if (k == 0) v = with_errno(err, [] { return (double) alg::symplectic<th::mat<real, 3, 3>>()(0, 0); }); else if (k == 1) v = with_errno(err, [] { return (double) alg::symplectic<th::mat<real, 2, 4>>()(0, 0); }); else v = with_errno(err, [] { return (double) alg::symplectic<th::mat<real>>(5, 5)(0, 0); });
	t.check(err != 0, "a shape without a symplectic matrix is reported"); t.is_nan(v, "symplectic matrix of a wrong shape");
}
