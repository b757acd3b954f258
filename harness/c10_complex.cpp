// C10: complex numbers, functions of complex variable and phasors
#include "linref.hpp"
using namespace pbt;
typedef th::phasor<real> ph;
namespace pbt { template<> struct Show<ph> { static std::string str(const ph& z) { return show((double) z.modulus) + "/" + show((double) z.phase); } }; }

static cplx gz(T& t, double w = 5) {
	switch (t.choice(5)) {
	case 0: return cplx((double) t.i(-4, 4), (double) t.i(-4, 4));
	case 1: return cplx(t.r(-w, w), 0.0);
	case 2: return cplx(0.0, t.r(-w, w));
	default: return cplx(t.r(-w, w), t.r(-w, w));
	}
}
static cld L(const cplx& z) { return cld(z.a, z.b); }
static void z_is(T& t, const cplx& g, cld w, ld e, const char* m) { t.close(g.a, w.real(), e, std::string(m) + " (real part)"); t.close(g.b, w.imag(), e, std::string(m) + " (imaginary part)"); }

LAW(field_operations, 60000) {
	auto any = [&] { cplx z = gz(t); double u = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-22, 34)) : 1; if (t.chance(1, 8)) { double n = std::hypot(z.a, z.b); if (n > 0) u = (1 + t.rlogs(-13, -2)) / n; } return cplx(z.a * u, z.b * u); };
	cplx z = any(), w = any(), u = gz(t); double k = t.chance(1, 3) ? gen_factor(t, 4) : t.rnz(-4, 4); if (t.chance(1, 10)) w = z; if (t.chance(1, 10)) w = cplx(z.a, -z.b); if (t.chance(1, 12)) w = cplx(-z.a, -z.b * (1 + t.rlogs(-13, -3))); NOTE(z); NOTE(w); NOTE(k); t.nontrivial(z.b != 0);
	cld Z = L(z), W = L(w); const ld mz = std::abs(Z), mw = std::abs(W), e = 1e-15L * (mz + mw), ek = 1e-15L * (mz + fabsl(k)), em = 1e-15L * mz * mw, emk = 1e-15L * mz * fabsl(k);
	z_is(t, z + w, Z + W, e, "+"); z_is(t, z - w, Z - W, e, "-"); z_is(t, z * w, Z * W, em, "*"); z_is(t, -z, -Z, 0, "unary -"); z_is(t, +z, Z, 0, "unary +");
	z_is(t, z + k, Z + (ld) k, ek, "+ real"); z_is(t, z - k, Z - (ld) k, ek, "- real"); z_is(t, z * k, Z * (ld) k, emk, "* real");
	z_is(t, k + z, Z + (ld) k, ek, "real +"); z_is(t, k - z, (ld) k - Z, ek, "real -"); z_is(t, k * z, Z * (ld) k, emk, "real *");
	cplx x = z; x += w; z_is(t, x, Z + W, e, "+="); x = z; x -= w; z_is(t, x, Z - W, e, "-="); x = z; x *= w; z_is(t, x, Z * W, em, "*=");
	x = z; x += k; z_is(t, x, Z + (ld) k, ek, "+= real"); x = z; x -= k; z_is(t, x, Z - (ld) k, ek, "-= real"); x = z; x *= k; z_is(t, x, Z * (ld) k, emk, "*= real");
	x = z; x *= x; z_is(t, x, Z * Z, 1e-15L * mz * mz, "*= itself"); x = z; x += x; z_is(t, x, Z + Z, 0, "+= itself"); x = z; x -= x; z_is(t, x, 0, 0, "-= itself");
	z_is(t, th::conjugate(z), std::conj(Z), 0, "conjugate"); z_is(t, z.conjugate(), std::conj(Z), 0, "conjugate()");
	t.close(z.sqr_norm(), std::norm(Z), 1e-15L * mz * mz, "sqr_norm"); t.close(z.norm(), mz, 1e-15L * mz, "norm"); t.close(th::abs(z), mz, 1e-15L * mz, "abs");
	z_is(t, th::square(z), Z * Z, 1e-15L * mz * mz, "square"); z_is(t, th::cube(z), Z * Z * Z, 4e-15L * mz * mz * mz, "cube"); z_is(t, th::identity(z), Z, 0, "identity");
	t.check(z.Re() == z.a && z.Im() == z.b && Re(z) == z.a && Im(z) == z.b, "parts");
	if (mw > 3e-8L) {
		z_is(t, z / w, Z / W, 4e-15L * mz / mw, "/"); x = z; x /= w; z_is(t, x, Z / W, 4e-15L * mz / mw, "/="); z_is(t, w.inverse(), (ld) 1 / W, 2e-15L / mw, "inverse()"); z_is(t, th::inverse(w), (ld) 1 / W, 2e-15L / mw, "inverse");
		x = w; x.invert(); z_is(t, x, (ld) 1 / W, 2e-15L / mw, "invert()"); z_is(t, k / w, (ld) k / W, 4e-15L * fabsl(k) / mw, "real /");
		x = w; x /= x; z_is(t, x, 1, 4e-15L, "/= itself");
	}
	if (std::fabs(k) > 1e-14) { z_is(t, z / k, Z / (ld) k, 1e-15L * mz / fabsl(k), "/ real"); x = z; x /= k; z_is(t, x, Z / (ld) k, 1e-15L * mz / fabsl(k), "/= real"); }
	t.check((z == w) == (z.a == w.a && z.b == w.b) && (z != w) == !(z == w) && z == cplx(z), "equality");
	ld a = std::arg(Z); if (mz > 0 && !(z.b == 0)) t.close(z.arg(), a, 2e-8, "arg"); else if (mz > 0) t.close(z.arg(), z.a >= 0 ? 0 : PIl, 1e-12, "arg of real numbers");
	z_is(t, cplx::rotor(k), cld(cosl(k), sinl(k)), 1e-15L, "rotor"); z_is(t, cplx::i() * cplx::i(), -1, 0, "i i = -1");
	std::array<double, 2> arr = {{3, -4}}; x = arr; z_is(t, x, cld(3, -4), 0, "assignment from an array");
}

LAW(division_by_zero_is_nan, 2000) {
	cplx z = gz(t); NOTE(z); t.nontrivial(); int e;
	cplx q = with_errno(e, [&] { return z / cplx(0, 0); }); t.check(std::isnan(q.a) && std::isnan(q.b) && e, "/ 0");
	q = with_errno(e, [&] { return z / 0.0; }); t.check(std::isnan(q.a) && e, "/ real 0");
	q = with_errno(e, [&] { cplx x = z; x /= 0.0; return x; }); t.check(std::isnan(q.a) && e, "/= real 0");
	q = with_errno(e, [&] { return cplx(0, 0).inverse(); }); t.check(std::isnan(q.a) && e, "inverse of 0");
	q = with_errno(e, [&] { cplx x(0, 0); x.invert(); return x; }); t.check(std::isnan(q.a) && e, "invert of 0");
}

LAW(functions_of_complex_variable, 60000) {
	cplx z = gz(t, 4); NOTE(z); t.nontrivial(z.b != 0); cld Z = L(z); t.label(z.b == 0 ? "real" : z.a == 0 ? "imaginary" : "general");
	ld big = expl(fabsl(Z.imag()));
	z_is(t, th::exp(z), std::exp(Z), 4e-15L * std::exp(Z.real()), "exp"); z_is(t, th::sin(z), std::sin(Z), 1e-14L * big, "sin"); z_is(t, th::cos(z), std::cos(Z), 1e-14L * big, "cos");
	if (std::abs(std::cos(Z)) > 0.05) z_is(t, th::tan(z), std::tan(Z), 1e-9 * big * big, "tan");
	// principal values; on the negative real axis the argument is pi
	cld Zc(Z.real(), Z.imag() == 0 ? 0.0L : Z.imag());
	z_is(t, th::sqrt(z), std::sqrt(Zc), 4e-15L * sqrtl(std::abs(Z)), "sqrt"); cplx s = th::sqrt(z); z_is(t, s * s, Z, 1e-14L * std::abs(Z), "sqrt(z)^2 = z"); t.check(s.a >= 0, "the real part of the root is not negative");
	if (std::abs(Z) > 0) { z_is(t, th::ln(z), std::log(Zc), 3e-8, "ln"); z_is(t, th::exp(th::ln(z)), Z, 4e-8L * std::abs(Z), "exp(ln(z)) = z"); }
	// inverse functions: away from the branch points
	bool cut = z.b == 0 && std::fabs(z.a) > 0.999, near1 = std::abs(Z - (ld) 1) < 0.05 || std::abs(Z + (ld) 1) < 0.05;
	if (!near1) {
		cplx a = th::asin(z), c = th::acos(z);
		z_is(t, th::sin(a), Z, 1e-6, "sin(asin(z)) = z"); z_is(t, th::cos(c), Z, 1e-6, "cos(acos(z)) = z");
		if (!cut) { z_is(t, a, std::asin(Z), 1e-7, "asin"); z_is(t, c, std::acos(Z), 1e-7, "acos"); }
		t.check(a.a > -1.5708 - 1e-4 && a.a < 1.5708 + 1e-4 && c.a > -1e-6 && c.a < 3.14160 + 1e-4, "principal branch");
	}
	bool nearI = std::abs(Z - cld(0, 1)) < 0.05 || std::abs(Z + cld(0, 1)) < 0.05, cutI = z.a == 0 && std::fabs(z.b) > 0.999;
	if (!nearI) { cplx a = th::atan(z); z_is(t, th::tan(a), Z, 1e-6 * (1 + std::norm(Z)), "tan(atan(z)) = z"); if (!cutI) z_is(t, a, std::atan(Z), 1e-7, "atan"); }
	// addition formulas and parity
	cplx w = gz(t, 2); NOTE(w); cld W = L(w);
	z_is(t, th::exp(z + w), L(th::exp(z) * th::exp(w)), 1e-14L * std::abs(std::exp(Z + W)), "exp(z + w) = exp(z) exp(w)");
	z_is(t, th::sin(z) * th::sin(z) + th::cos(z) * th::cos(z), 1, 1e-14 * big * big, "sin^2 + cos^2 = 1");
}

// Large arguments, arguments next to the cuts, large imaginary parts
LAW(functions_far_away, 40000) {
	double r = t.rlog(-3, 8), w = t.chance(1, 3) ? (double) t.i(-2, 2) * 1.5707963267948966 + t.rlogs(-15, -2) : t.r(-3.14159, 3.14159); cplx z(r * std::cos(w), r * std::sin(w)); if (z.b == 0) t.discard(); if (z.a == 0) t.discard(); cld Z = L(z); NOTE(z); t.nontrivial(r > 4); t.label_if(r > 1e4, "large"); t.label_if(std::fabs(z.b) < 1e-9 * std::fabs(z.a), "next to the real axis"); t.label_if(std::fabs(z.a) < 1e-9 * std::fabs(z.b), "next to the imaginary axis");
	ld m = std::abs(Z); cld q = std::sqrt(Z); cplx s = th::sqrt(z); t.approx(s.a, q.real(), 1e-13L, 0, "real part of the square root"); t.approx(s.b, q.imag(), 1e-13L, 0, "imaginary part of the square root");
	bool near1 = std::abs(Z - (ld) 1) < 0.05 || std::abs(Z + (ld) 1) < 0.05, nearI = std::abs(Z - cld(0, 1)) < 0.05 || std::abs(Z + cld(0, 1)) < 0.05;
	if (!near1) { z_is(t, th::asin(z), std::asin(Z), 1e-7L, "asin"); z_is(t, th::acos(z), std::acos(Z), 1e-7L, "acos"); }
	if (!nearI) z_is(t, th::atan(z), std::atan(Z), 1e-7L, "atan");
	z_is(t, th::ln(z), std::log(Z), 1e-7L, "ln");
	// on the cuts, either side is a value
	{ double v = (t.coin() ? 1 : -1) * (1.1 + t.rlog(-1, 7)); NOTE(v); ld ac = acoshl(fabsl(v)); cplx a = th::asin(cplx(v, 0)), c = th::acos(cplx(v, 0)); t.close(a.a, v > 0 ? PIl / 2 : -PIl / 2, 1e-7L, "real part of asin on the cut"); t.close(std::fabs(a.b), ac, 1e-7L, "imaginary part of asin on the cut"); t.close(c.a, v > 0 ? 0 : PIl, 1e-7L, "real part of acos on the cut"); t.close(std::fabs(c.b), ac, 1e-7L, "imaginary part of acos on the cut");
	cplx g = th::atan(cplx(0, v)); t.close(std::fabs(g.a), PIl / 2, 1e-7L, "real part of atan on the cut"); t.close(g.b, atanhl(1 / (ld) v), 1e-7L, "imaginary part of atan on the cut"); cplx s1 = th::sqrt(cplx(-std::fabs(v), 0)); t.close(s1.a, 0, 0, "square root of a negative number"); t.approx(s1.b, sqrtl(fabsl(v)), 1e-14L, 0, "square root of a negative number"); cplx l1 = th::ln(cplx(-std::fabs(v), 0)); t.close(l1.a, logl(fabsl(v)), 1e-12L, "logarithm of a negative number"); t.close(l1.b, PIl, 1e-12L, "logarithm of a negative number"); }
	ld x = t.r(-4, 4), y = t.chance(1, 2) ? t.r(-700, 700) : t.rlogs(-2, 6); cplx u((real) x, (real) y); cld U = L(u); NOTE(u);
	if (fabsl(y) < 700) { ld g = expl(fabsl(y)); z_is(t, th::sin(u), std::sin(U), 1e-12L * (1 + g), "sin"); z_is(t, th::cos(u), std::cos(U), 1e-12L * (1 + g), "cos"); z_is(t, th::exp(cplx((real) y, (real) x)), std::exp(cld(y, x)), 1e-12L * (1 + expl(y)), "exp"); }
	if (fabsl(y) > 0.05L) { ld e = expl(-2 * fabsl(y)), D = 1 + 2 * e * cosl(2 * x) + e * e; z_is(t, th::tan(u), cld(2 * e * sinl(2 * x) / D, (y < 0 ? -1 : 1) * (1 - e * e) / D), 1e-10L, "tan"); }
}

LAW(results_scale_with_the_argument, 30000) {
	// the same relative accuracy at every magnitude
	double r = t.rlog(-40, 40), w = t.r(-3.14159, 3.14159), r2 = t.rlog(-7, 7), w2 = t.r(-3.14159, 3.14159); if (t.chance(1, 6)) w = 0; cplx z(r * std::cos(w), r * std::sin(w)), u(r2 * std::cos(w2), r2 * std::sin(w2)); NOTE(z); NOTE(u); t.nontrivial(z.b != 0); cld Z = L(z), U = L(u); ld m = std::abs(Z), mu = std::abs(U);
	t.label(r < 1e-8 ? "small" : r > 1e8 ? "large" : "medium");
	t.approx(z.norm(), m, 1e-14, 0, "norm"); t.approx(z.sqr_norm(), m * m, 1e-14, 0, "square of the norm"); t.close(z.arg(), std::arg(Z), 1e-7, "argument");
	z_is(t, th::sqrt(z), std::sqrt(Z), 1e-14L * sqrtl(m), "sqrt"); cplx l = th::ln(z); t.close(l.a, logl(m), 1e-12, "logarithm of the modulus");
	z_is(t, z * u, Z * U, 1e-14L * m * mu, "product"); z_is(t, z / u, Z / U, 1e-13L * m / mu, "quotient"); z_is(t, u.inverse(), (ld) 1 / U, 1e-13L / mu, "inverse"); z_is(t, z + u, Z + U, 1e-15L * (m + mu), "sum"); z_is(t, th::square(z), Z * Z, 1e-14L * m * m, "square"); z_is(t, th::cube(u), U * U * U, 1e-14L * mu * mu * mu, "cube");
	z_is(t, z * r2, Z * (ld) r2, 1e-15L * m * r2, "times a real number"); z_is(t, z / r2, Z / (ld) r2, 1e-15L * m / r2, "over a real number");
}

LAW(real_arguments_agree, 20000) {
	double x = t.r(-0.95, 0.95), y = t.r(0.01, 20); NOTE(x); NOTE(y); t.nontrivial();
	auto same = [&](const cplx& z, double r, const char* m) { t.close(z.a, r, 1e-6, m); t.close(z.b, 0, 1e-6, m); };
	same(th::exp(cplx(x)), th::exp(x), "exp"); same(th::sin(cplx(y)), th::sin(y), "sin"); same(th::cos(cplx(y)), th::cos(y), "cos"); same(th::sqrt(cplx(y)), th::sqrt(y), "sqrt"); same(th::ln(cplx(y)), th::ln(y), "ln");
	same(th::asin(cplx(x)), th::asin(x), "asin"); same(th::acos(cplx(x)), th::acos(x), "acos"); same(th::atan(cplx(y)), th::atan(y), "atan");
	double back = (double) cplx(y, 0); t.close(back, y, 0, "narrowing to a real number"); t.is_nan((double) cplx(y, 1), "narrowing of a number which is not real");
}

LAW(phasors, 60000) {
	auto gp = [&] { ph p; switch (t.choice(3)) { case 0: p = ph((double) t.i(0, 4), (double) t.i(-2, 2) * (double) (PIl / 2)); break; case 1: p = ph(t.r(-5, 5)); break; default: p = ph(t.r(0, 5), t.r(-7, 7)); } return p; };
	ph p = gp(), q = gp(); if (t.chance(1, 4)) { q.phase = p.phase; t.label("same phase"); if (t.coin()) { q.phase += t.rlogs(-12, -2); t.label("close phases"); } }
	if (t.chance(1, 8)) { q.phase = p.phase + (t.coin() ? 1 : -1) * (double) PIl; t.label("opposite phases"); if (t.coin()) q.modulus = p.modulus * (1 + (t.coin() ? t.rlogs(-12, -3) : 0)); }
	const double un = t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-30, 30)) : 1; p.modulus *= un; if (t.chance(3, 4)) q.modulus *= un;
	NOTE(p); NOTE(q); t.nontrivial(p.modulus != 0);
	auto val = [](const ph& x) { return cld(x.modulus * cosl(x.phase), x.modulus * sinl(x.phase)); };
	cld P = val(p), R = val(q); const ld mp = p.modulus, mq = q.modulus, es = 4e-8L * (mp + mq), em = 2e-15L * mp * mq;
	auto is = [&](const ph& g, cld w, ld e, const char* m) { cld G = val(g); t.close((double) G.real(), w.real(), e, m); t.close((double) G.imag(), w.imag(), e, m); t.check(g.modulus >= 0, std::string(m) + ": the modulus is not negative"); };
	is(p + q, P + R, es, "+"); is(p - q, P - R, es, "-"); is(p * q, P * R, em * (1 + 10), "*"); is(p.conjugate(), std::conj(P), 1e-15L * mp, "conjugate");
	ph x = p; x += q; is(x, P + R, es, "+="); x = p; x -= q; is(x, P - R, es, "-="); x = p; x *= q; is(x, P * R, em * (1 + 10), "*=");
	if (q.modulus > 1e-14) { is(p / q, P / R, 2e-14L * mp / mq, "/"); x = p; x /= q; is(x, P / R, 2e-14L * mp / mq, "/="); ph y = q.inverse(); is(y, (ld) 1 / R, 2e-15L / mq, "inverse()"); y = q; y.invert(); is(y, (ld) 1 / R, 2e-15L / mq, "invert()"); is(3.0 / q, (ld) 3 / R, 6e-15L / mq, "real /"); }
	double k = un * gen_factor(t, 3); NOTE(k); is(k + p, P + (ld) k, 4e-8L * (mp + fabsl(k)), "real +"); is(k - p, (ld) k - P, 4e-8L * (mp + fabsl(k)), "real -"); is(k * p, P * (ld) k, 1e-14L * mp * fabsl(k), "real *");
	cplx z = p.to_complex(); z_is(t, z, P, 1e-15L * mp, "to_complex"); is(ph(z), P, 4e-8L * mp, "from complex"); t.close(p.Re(), P.real(), 1e-15L * mp, "Re"); t.close(p.Im(), P.imag(), 1e-15L * mp, "Im");
	t.close(p.norm(), std::abs(P), 1e-15L * mp, "norm"); t.close(p.sqr_norm(), std::norm(P), 1e-15L * mp * mp, "sqr_norm");
	cplx c = gz(t); NOTE(c); is(p * c, P * L(c), 4e-8L * mp * std::abs(L(c)), "phasor * complex"); is(c * p, P * L(c), 4e-8L * mp * std::abs(L(c)), "complex * phasor");
	is(ph::rotor(k), cld(cosl(k), sinl(k)), 1e-15, "rotor"); is(ph::i(), cld(0, 1), 1e-12, "i"); t.check(p == ph(p) && !(p != ph(p)), "equality");
}

// Construction, assignment, parts and conversions
LAW(parts_and_conversions, 20000) {
	double a = t.chance(1, 4) ? (double) t.i(-3, 3) : t.r(-6, 6), b = t.chance(1, 4) ? (double) t.i(-3, 3) : t.r(-6, 6), c = t.r(-6, 6); NOTE(a); NOTE(b); NOTE(c); t.nontrivial(b != 0);
	auto is2 = [&](const cplx& z, double x, double y, const char* m) { t.eq((double) z.a, x, std::string(m) + ": real part"); t.eq((double) z.b, y, std::string(m) + ": imaginary part"); };
	cplx z; is2(z, 0, 0, "default constructor"); is2(cplx(a), a, 0, "from a real number"); const cplx d(a, b); is2(d, a, b, "from two numbers"); z = (real) c; is2(z, c, 0, "assignment of a real number"); z = std::array<real, 2>{{(real) a, (real) b}}; is2(z, a, b, "assignment of an array"); z = cplx(c); z = d; is2(z, a, b, "assignment"); is2(cplx(d), a, b, "copy");
	t.eq((double) d.Re(), a, "Re()"); t.eq((double) d.Im(), b, "Im()"); t.eq((double) Re(d), a, "Re"); t.eq((double) Im(d), b, "Im"); Re(z) = c; Im(z) = a; is2(z, c, a, "writing the parts"); z.Re() = b; z.Im() = c; is2(z, b, c, "writing the parts by methods"); is2(+d, a, b, "identity"); is2(-d, -a, -b, "opposite"); is2(d.conjugate(), a, -b, "conjugate()"); is2(th::conjugate(d), a, -b, "conjugate"); is2(cplx::i(), 0, 1, "imaginary unit");
	cplx y(t.coin() ? a : c, t.coin() ? b : c); t.eq(d == y, y.a == a && y.b == b, "equality"); t.eq(d != y, !(y.a == a && y.b == b), "inequality");
	ph p; t.eq((double) p.modulus, 0.0, "modulus of the default phasor"); double m = std::fabs(a); const ph q(m, b); t.eq((double) q.modulus, m, "modulus"); t.eq((double) q.phase, b, "phase"); t.eq((double) q.arg(), b, "arg"); t.eq((double) q.norm(), m, "norm"); p = std::array<real, 2>{{(real) m, (real) b}}; t.eq((double) p.modulus, m, "modulus assigned from an array"); t.eq((double) p.phase, b, "phase assigned from an array"); p = ph(c); t.eq((double) p.modulus, std::fabs(c), "modulus of a real number"); t.close(p.phase, c < 0 ? PIl : 0, 1e-15, "phase of a real number");
	t.close(Re(q), m * cosl(b), 1e-13, "Re of a phasor"); t.close(Im(q), m * sinl(b), 1e-13, "Im of a phasor"); ph r = q; cplx k = static_cast<cplx>(r); t.close(k.a, m * cosl(b), 1e-13, "cast to complex"); t.close(k.b, m * sinl(b), 1e-13, "cast to complex"); ph o = q; t.check(o == q && !(o != q), "equal phasors"); if (m > 0.1) { o.modulus += 1; t.check(o != q && !(o == q), "phasors with different moduli"); o = q; o.phase += 0.5; t.check(o != q && !(o == q), "phasors with different phases"); }
}

// Next to special points: tiny parts, unit modulus, negative arguments far away
LAW(next_to_special_points, 40000) {
	double x = t.rlogs(-300, 0), y = t.rlogs(-300, 0); NOTE(x); NOTE(y); t.nontrivial(); t.close(cplx(x, 0).arg(), x < 0 ? PIl : 0, 1e-15L, "argument of a tiny real number"); t.close(cplx(0, y).arg(), y < 0 ? -PIl / 2 : PIl / 2, 1e-15L, "argument of a tiny imaginary number"); ph px((real) x); t.close(px.phase, x < 0 ? PIl : 0, 1e-15L, "phase of a tiny real number"); t.approx(px.modulus, fabsl(x), 1e-15L, 0, "modulus of a tiny real number");
	double q = std::atan2(y, x), r = std::fabs(x / y); if (r > 1e-8 && r < 1e8 && std::fabs(x) > 1e-290 && std::fabs(y) > 1e-290) t.close(cplx(x, y).arg(), q, 4e-8L, "argument");
	// equality is exact
	cplx z = gz(t), w = z; double d = t.rlogs(-15, -9); if (t.coin()) w.a += d; else w.b += d; NOTE(z); NOTE(w); bool same = w.a == z.a && w.b == z.b; t.eq(z == w, same, "equality is exact"); t.eq(z != w, !same, "inequality is exact");
	double im = t.rlogs(-14, 3); t.is_nan((double) cplx(x, im), "narrowing of a number which is not real"); t.eq((double) cplx(x, im / 1e4 < 1e-17 && im / 1e4 > -1e-17 ? im / 1e4 : 0), x, "narrowing of a real number");
	// the relative accuracy of the exponential does not depend on the real part
	double re = t.r(-700, 700), th_ = t.r(-20, 20); cplx e = th::exp(cplx(re, th_)); cld E = std::exp(cld(re, th_)); NOTE(re); NOTE(th_); z_is(t, e, E, 1e-12L * std::abs(E), "exp");
	// numbers with modulus close to one
	double g = t.rlogs(-15, -3), ph_ = t.r(-3, 3); cplx o((1 + g) * std::cos(ph_), (1 + g) * std::sin(ph_)); cld O = L(o); NOTE(o); cplx l = th::ln(o); ld lw = 0.5L * log1pl((O.real() - 1) * (O.real() + 1) + O.imag() * O.imag()); t.close(l.a, lw, 2e-15L, "logarithm of a number with modulus close to one"); 
	// arcs of small numbers
	cplx s(t.rlogs(-12, -3), t.rlogs(-12, -3)); cld S = L(s); NOTE(s); z_is(t, th::atan(s), std::atan(S), 1e-14L + 1e-7L * std::abs(S), "atan of a small number"); z_is(t, th::asin(s), std::asin(S), 1e-14L + 1e-7L * std::abs(S), "asin of a small number"); z_is(t, th::sin(s), std::sin(S), 1e-14L, "sin of a small number"); z_is(t, th::tan(s), std::tan(S), 1e-14L, "tan of a small number"); z_is(t, th::sqrt(s), std::sqrt(S), 1e-14L * sqrtl(std::abs(S)), "sqrt of a small number");
}
