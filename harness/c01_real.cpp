// C01: real elementary functions agree with the mathematical functions
#include "common.hpp"
using namespace pbt;

// accuracy with the x87 instructions, and without
#ifdef THEORETICA_X86
#define HW(fast, portable) (fast)
#else
#define HW(fast, portable) (portable)
#endif

// All functions are called through th:: so that no std overload can be picked
#define F1(NAME) ((double) th::NAME((real) x))

// ------------------------------------------------------------ roots, powers

LAW(sqrt_inverse_of_square, 60000) {
	double x = t.chance(1, 3) ? t.r(0, 100) : t.rlog(-300, 300);
	NOTE(x);
	t.nontrivial(x != 0 && x != 1);
	t.label_if(x < 1, "below one"); t.label_if(x > 1e60, "huge"); t.label_if(x < 1e-60, "tiny");
	t.approx(F1(sqrt), sqrtl(x), HW(4e-15, 1e-8), 0, "sqrt");
}

LAW(cbrt_inverse_of_cube, 60000) {
	double x = t.chance(1, 3) ? t.r(-100, 100) : t.rlogs(-300, 300);
	NOTE(x);
	t.nontrivial(x != 0 && std::fabs(x) != 1);
	t.label_if(x < 0, "negative"); t.label_if(std::fabs(x) > 1e26, "huge"); t.label_if(std::fabs(x) < 1e-26, "tiny");
	t.approx(F1(cbrt), cbrtl(x), 1e-8, 0, "cbrt");
}

LAW(root_matches_power, 40000) {
	int n = (int) t.i(-9, 9);
	if (n == 0) n = 1;
	double x = t.chance(1, 2) ? t.r(0.125, 100) : t.rlog(-250, 250);
	if (n % 2 != 0 && t.coin()) x = -x;
	NOTE(x); NOTE(n);
	t.nontrivial(n != 1 && n != -1);
	t.label_if(x < 0, "negative radicand"); t.label_if(n < 0, "negative index"); t.label_if(std::abs(n) > 3, "general index");
	ld w = powl(fabsl((ld) x), 1.0L / n); if (x < 0) w = -w;
	int err = 0;
	double y = with_errno(err, [&] { return (double) th::root((real) x, n); });
	t.approx(y, w, 1e-8, 0, "root");
}

LAW(pow_integer, 60000) {
	int n = (int) t.i(-40, 40);
	double x = t.chance(1, 2) ? t.rnz(0.125, 12) : t.rlogs(-6, 6);
	NOTE(x); NOTE(n);
	t.nontrivial(n > 1 || n < -1);
	t.approx((double) th::pow((real) x, n), powl((ld) x, (ld) n), 1e-12, 0, "pow(real, int)");
	if (n >= 0) t.approx((double) th::ipow((real) x, (unsigned) n), powl((ld) x, (ld) n), 1e-12, 0, "ipow(real, unsigned)");
}

LAW(pow_integer_exact, 30000) {
	// modular arithmetic: the unsigned 64-bit ring is a multiplicative algebra
	uint64_t b = t.u64(); unsigned n = (unsigned) t.n(0, 200);
	NOTE(b); NOTE(n);
	uint64_t w = 1; for (unsigned k = 0; k < n; ++k) w *= b;
	t.nontrivial(n > 2 && b > 1);
	t.eq(th::ipow<uint64_t>(b, n), w, "ipow over Z/2^64");
	t.eq(th::pow<uint64_t>(b, (int) n), w, "pow over Z/2^64");
}

LAW(square_cube, 20000) {
	double x = t.rlogs(-90, 90);
	NOTE(x); t.nontrivial();
	t.approx(F1(square), (ld) x * x, 1e-14, 0, "square");
	t.approx(F1(cube), (ld) x * x * x, 1e-14, 0, "cube");
}

LAW(powf_real_exponent, 60000) {
	double x = t.chance(1, 2) ? t.r(0.125, 50) : t.rlog(-20, 20), a = t.r(-10, 10);
	NOTE(x); NOTE(a);
	t.nontrivial(x != 1 && a != 0);
	t.approx((double) th::powf((real) x, (real) a), powl(x, a), 5e-6, 0, "powf");
#ifdef THEORETICA_X86
	t.approx((double) th::powf((real) x, (real) a), powl(x, a), 1e-11, 0, "powf");
#endif
}

// -------------------------------------------------------- exp and logarithms

LAW(exp_matches, 80000) {
	double x = t.chance(1, 2) ? t.r(-20, 20) : t.r(-700, 700);
	NOTE(x);
	t.nontrivial(x != 0);
	t.label_if(x < 0, "negative"); t.label_if(std::fabs(x) > 100, "large");
	t.approx(F1(exp), expl(x), 1e-12, 0, "exp");
	t.approx((double) (th::exp((real) x) * th::exp((real) -x)), 1, 1e-14, 0, "exp(x) exp(-x)");
}

LAW(exp_saturates, 20000) {
	double x = t.chance(1, 4) ? std::numeric_limits<double>::infinity() : t.rlog(2.8512, 300);
	if (x < 710) x = 710;
	NOTE(x); t.nontrivial();
	t.eq(F1(exp), (double) INFINITY, "exp of a large argument");
	x = -x;
	t.eq(F1(exp), 0.0, "exp of a large negative argument");
}

LAW(expm1_small, 60000) {
	double x = t.chance(1, 2) ? t.rlogs(-18, -3) : t.rlogs(-3, 1);
	NOTE(x); t.nontrivial();
	t.label_if(std::fabs(x) <= 0.001, "series branch");
	t.approx(F1(expm1), expm1l(x), 1e-11, 0, "expm1");
}

LAW(logarithms_match, 80000) {
	double x = t.chance(1, 3) ? t.r(0.125, 64) : (t.coin() ? t.rlog(-300, 300) : t.rlog(-3, 3));
	NOTE(x);
	t.nontrivial(x != 1);
	t.label_if(x < 1, "below one"); t.label_if(x > 9.3e18, "above 2^63");
#ifdef THEORETICA_X86
	const ld rel = 1e-13, a = 1e-15;
#else
	const ld rel = 1e-11, a = 2e-8;
#endif
	t.approx(F1(log2), log2l(x), rel, a, "log2");
	t.approx(F1(log10), log10l(x), rel, a, "log10");
	t.approx(F1(ln), logl(x), rel, a, "ln");
}

// ------------------------------------------------------------- trigonometry

LAW(sine_cosine_match, 80000) {
	double x = t.chance(1, 2) ? t.r(-7, 7) : (t.coin() ? t.rlogs(-9, 5) : t.r(-1000, 1000));
	NOTE(x);
	t.nontrivial(x != 0);
	t.label_if(std::fabs(x) > 6.2832, "needs range reduction"); t.label_if(x < 0, "negative");
	const ld tol = HW(1e-14, 1e-10) + std::fabs(x) * 1e-15;
	double s = F1(sin), c = F1(cos);
	t.close(s, sinl(x), tol, "sin");
	t.close(c, cosl(x), tol, "cos");
	t.close(s * s + c * c, 1, 3 * tol, "sin^2 + cos^2");
}

LAW(tangent_cotangent_match, 80000) {
	double x = t.chance(1, 2) ? t.r(-7, 7) : t.r(-300, 300);
	NOTE(x);
	ld s = sinl(x), c = cosl(x);
	t.nontrivial(x != 0);
	t.label_if(std::fabs(x) > 3.1416, "needs range reduction"); t.label_if(x < 0, "negative");
	if (fabsl(c) > 0.01) t.approx(F1(tan), s / c, HW(1e-12, 1e-8), HW(1e-13, 1e-9), "tan");
	if (fabsl(s) > 0.01) t.approx(F1(cot), c / s, HW(1e-12, 1e-8), HW(1e-13, 1e-9), "cot");
}

LAW(arcs_match, 80000) {
	double x = t.chance(1, 2) ? t.r(-1, 1) : t.rlogs(-12, 0); if (t.chance(1, 50)) x = t.coin() ? 0.0 : -0.0;
	NOTE(x);
	t.nontrivial(x != 0);
	t.label_if(std::fabs(x) == 1, "end point");
	t.close(F1(asin), asinl(x), 4e-8, "asin");
	t.close(F1(acos), acosl(x), 4e-8, "acos");
	x = t.chance(1, 2) ? t.r(-4, 4) : t.rlogs(-12, 12);
	t.note("y", x);
	t.approx(F1(atan), atanl(x), std::fabs(x) < 1 ? 4e-8 : 0, std::fabs(x) < 1 ? 0 : 4e-8, "atan");
}

LAW(atan2_all_quadrants, 80000) {
	double y = t.chance(1, 3) ? t.r(-4, 4) : t.rlogs(-6, 6), x = t.chance(1, 3) ? t.r(-4, 4) : t.rlogs(-6, 6);
	if (t.chance(1, 10)) y = 0;
	if (t.chance(1, 10)) x = 0;
	if (x == 0 && y == 0) x = 1;
	NOTE(y); NOTE(x);
	t.nontrivial(y != 0);
	t.label(y > 0 ? (x > 0 ? "quadrant 1" : x < 0 ? "quadrant 2" : "axis") : y < 0 ? (x > 0 ? "quadrant 4" : x < 0 ? "quadrant 3" : "axis") : "axis");
	double a = (double) th::atan2((real) y, (real) x);
	ld w = atan2l(y, x);
	// -pi and pi name the same direction
	if (y == 0 && x < 0) {
		// a negative zero may be taken as either side of the cut
		t.close(std::signbit(y) ? fabsl(a) : (ld) a, PIl, 1e-14, "atan2 on the negative axis"); return;
	}
	t.close(a, w, 4e-8, "atan2");
	ld r = hypotl(x, y);
	t.close(r * cosl(a), x, 1e-7 * r, "atan2: recovered x");
	t.close(r * sinl(a), y, 1e-7 * r, "atan2: recovered y");
}

// -------------------------------------------------------------- hyperbolics

LAW(hyperbolics_match, 80000) {
	double x = t.chance(1, 2) ? t.r(-10, 10) : t.r(-700, 700);
	NOTE(x);
	t.nontrivial(x != 0);
	t.label_if(std::fabs(x) > 355, "exp overflows twice");
	t.approx(F1(sinh), sinhl(x), 1e-11, 1e-12, "sinh");
	t.approx(F1(cosh), coshl(x), 1e-11, 0, "cosh");
	t.close(F1(tanh), tanhl(x), 1e-13, "tanh");
	if (std::fabs(x) > 1e-2) t.approx(F1(coth), 1 / tanhl(x), 1e-10, 0, "coth");
	t.close(F1(sigmoid), 1 / (1 + expl(-x)), 1e-13, "sigmoid");
	t.label_if(x < 0, "negative");
}

LAW(hyperbolic_limits, 20000) {
	double x = t.rlog(1.5, 9); if (t.chance(1, 8)) x = INFINITY;
	NOTE(x); t.nontrivial();
	t.close((double) th::tanh((real) x), 1, 1e-14, "tanh at a large argument");
	t.close((double) th::tanh((real) -x), -1, 1e-14, "tanh at a large negative argument");
	t.close((double) th::coth((real) x), 1, 1e-14, "coth at a large argument");
	t.close((double) th::coth((real) -x), -1, 1e-14, "coth at a large negative argument");
	t.close((double) th::sigmoid((real) x), 1, 1e-12, "sigmoid at a large argument");
	t.close((double) th::sigmoid((real) -x), 0, 1e-12, "sigmoid at a large negative argument");
}

LAW(inverse_hyperbolics_match, 60000) {
	double x = t.chance(1, 2) ? t.r(-20, 20) : t.rlogs(-6, 100);
	NOTE(x);
	t.nontrivial(x != 0);
	t.label_if(x < -1e8, "large negative");
	t.approx(F1(asinh), asinhl(x), 1e-8, 2e-8, "asinh");
	double y = 1 + (t.chance(1, 2) ? t.r(0, 20) : t.rlog(-6, 100));
	t.approx((double) th::acosh((real) y), acoshl(y), HW(1e-12, 1e-8), HW(1e-11, 3e-8), "acosh");
	double z = t.r(-0.999, 0.999);
	t.approx((double) th::atanh((real) z), atanhl(z), 1e-8, 2e-8, "atanh");
#ifdef THEORETICA_X86
	if (x > -10) t.approx(F1(asinh), asinhl(x), 1e-12, 1e-14, "asinh");
	t.approx((double) th::atanh((real) z), atanhl(z), 1e-12, 1e-14, "atanh");
#endif
}

// --------------------------------------------- rounding, ordering and shapes

LAW(floor_fract, 60000) {
	double x = t.chance(1, 3) ? t.r(-10, 10) : (t.coin() ? t.rlogs(-6, 9) : (double) t.i(-100000, 100000));
	NOTE(x);
	t.nontrivial(x != std::floor(x));
	t.label_if(x < -1 && x != std::floor(x), "negative non-integer below -1");
	t.label_if(x == std::floor(x), "integer");
	t.eq((double) th::floor((real) x), std::floor(x), "floor");
	double f = F1(fract);
	t.check(f >= 0 && f <= 1, "fract outside [0, 1]");
	if (x >= 0) t.close(f, x - std::floor(x), 1e-12 * (1 + x), "fract");
	if (x == std::floor(x)) t.eq(f, 0.0, "fract of an integer");
}

LAW(order_and_sign, 40000) {
	double x = t.rlogs(-6, 6), y = t.chance(1, 6) ? x : t.rlogs(-6, 6), z = t.rlogs(-6, 6);
	if (t.chance(1, 10)) x = 0;
	NOTE(x); NOTE(y); NOTE(z);
	t.nontrivial(x != y);
	// The branchless variants are rounded; the others are exact
	const ld tol = 4e-16L * (std::fabs(x) + std::fabs(y));
	t.close((double) th::max((real) x, (real) y), std::max(x, y), tol, "max");
	t.close((double) th::min((real) x, (real) y), std::min(x, y), tol, "min");
	t.eq((double) th::abs((real) x), std::fabs(x), "abs");
	t.eq(th::sgn((real) x), (x > 0) - (x < 0), "sgn");
	double lo = std::min(y, z), hi = std::max(y, z);
	t.eq((double) th::clamp((real) x, (real) lo, (real) hi), x < lo ? lo : x > hi ? hi : x, "clamp");
	int a = (int) t.i(-1000, 1000), b = (int) t.i(-1000, 1000), c = (int) t.i(-1000, 1000);
	t.eq(th::max<int>(a, b), std::max(a, b), "max<int>");
	t.eq(th::min<int>(a, b), std::min(a, b), "min<int>");
	t.eq(th::clamp<int>(c, std::min(a, b), std::max(a, b)), std::max(std::min(a, b), std::min(c, std::max(a, b))), "clamp<int>");
	t.eq(th::kronecker_delta<int>(a, b), a == b ? 1 : 0, "kronecker_delta");
	if (x != 0) t.eq((double) th::heaviside((real) x), x > 0 ? 1.0 : 0.0, "heaviside");
	t.eq((double) th::heaviside(0), 0.5, "heaviside(0)");
}

LAW(sinc_and_angles, 40000) {
	double x = t.chance(1, 2) ? t.r(-20, 20) : t.rlogs(-12, 2);
	NOTE(x);
	t.nontrivial(x != 0);
	t.close(F1(sinc), x == 0 ? 1.0L : sinl(PIl * x) / (PIl * x), HW(1e-14, 1e-9), "sinc");
	t.approx(F1(radians), x * PIl / 180, 1e-14, 0, "radians");
	t.approx(F1(degrees), x * 180 / PIl, 1e-14, 0, "degrees");
	t.approx((double) th::degrees(th::radians((real) x)), x, 1e-13, 0, "degrees(radians(x))");
}

LAW(monotone, 40000) {
	// Monotone functions never decrease between arguments that are far enough apart
	double a = t.r(-30, 30), d = t.rlog(-5, 1), b = a + d;
	NOTE(a); NOTE(b); t.nontrivial();
	t.check(th::exp((real) a) < th::exp((real) b), "exp is increasing");
	t.check(th::atan((real) a) <= th::atan((real) b) + 1e-7, "atan is increasing");
	t.check(th::tanh((real) a) <= th::tanh((real) b) + 1e-14, "tanh is increasing");
	t.check(th::cbrt((real) a) < th::cbrt((real) b) + 1e-7, "cbrt is increasing");
	t.check(th::asinh((real) a) <= th::asinh((real) b) + 4e-8, "asinh is increasing");
	if (a > 0) { t.check(th::sqrt((real) a) < th::sqrt((real) b) + 1e-8, "sqrt is increasing"); t.check(th::ln((real) a) < th::ln((real) b) + 4e-8, "ln is increasing"); }
	t.check(th::floor((real) a) <= th::floor((real) b), "floor is increasing");
}

LAW(not_a_number_propagates, 2000) {
	real n = th::nan(); size_t k = t.n(0, 15);
	static const char* names[] = {"sqrt", "cbrt", "exp", "expm1", "log2", "ln", "log10", "sin", "cos", "atan", "sinh", "cosh", "tanh", "asinh", "sigmoid", "abs"};
	t.note("function", std::string(names[k])); t.nontrivial(); t.label(names[k]);
	real y = 0;
	switch (k) {
	case 0: y = th::sqrt(n); break; case 1: y = th::cbrt(n); break; case 2: y = th::exp(n); break; case 3: y = th::expm1(n); break;
	case 4: y = th::log2(n); break; case 5: y = th::ln(n); break; case 6: y = th::log10(n); break; case 7: y = th::sin(n); break;
	case 8: y = th::cos(n); break; case 9: y = th::atan(n); break; case 10: y = th::sinh(n); break; case 11: y = th::cosh(n); break;
	case 12: y = th::tanh(n); break; case 13: y = th::asinh(n); break; case 14: y = th::sigmoid(n); break; default: y = th::abs(n);
	}
	t.is_nan((double) y, names[k]);
}

LAW(powf_of_zero, 2000) {
	real a = (real) (t.coin() ? t.rlog(-12, 2) : (double) t.i(1, 20)), z = t.coin() ? (real) 0.0 : (real) -0.0; NOTE(a); t.nontrivial(); int err;
	real p = with_errno(err, [&] { return th::powf(z, a); }); t.check(p == 0 && err == 0, "a positive power of zero is zero");
	real o = with_errno(err, [&] { return th::powf(z, (real) 0); }); t.check(o == 1 && err == 0, "the null power of zero is one");
	real n = th::powf(z, -a); t.check(std::isinf((double) n) && n > 0, "a negative power of zero is infinite");
}

LAW(fract_of_large_numbers, 20000) {
	double x = t.rlogs(0, t.coin() ? 16 : 25); NOTE(x); t.nontrivial(std::fabs(x) > 2147483648.0); double f = F1(fract); t.eq(f, x - std::floor(x), "fractional part of a large number");
}

#ifdef THEORETICA_X86
static const ld TIGHT = 1;
#else
static const ld TIGHT = 0;
#endif
// The whole range of the floating point numbers
LAW(full_range, 150000) {
	if (TIGHT) { double s = t.rlog(-307.6, -295); t.note("s", s); t.approx((double) th::sqrt((real) s), sqrtl(s), 4e-16L, 0, "sqrt of the smallest numbers"); t.approx((double) th::sqrt((real) (1 / s)), sqrtl((ld) (1 / s)), 4e-16L, 0, "sqrt of the largest numbers"); }
	double x = t.rlogs(-300, 300); NOTE(x); t.nontrivial(); ld a = fabsl(x);
	if (TIGHT) { t.approx((double) th::sqrt((real) a), sqrtl(a), 4e-16L, 0, "sqrt over the whole range"); t.approx((double) th::ln((real) a), logl(a), 4e-16L, 4e-16L, "ln over the whole range"); t.approx((double) th::log2((real) a), log2l(a), 4e-16L, 4e-16L, "log2 over the whole range"); t.approx((double) th::log10((real) a), log10l(a), 4e-16L, 4e-16L, "log10 over the whole range"); }
	else { t.approx((double) th::sqrt((real) a), sqrtl(a), 1e-8L, 0, "sqrt over the whole range"); t.approx((double) th::ln((real) a), logl(a), 2e-8L, 2e-8L, "ln over the whole range"); }
	t.approx((double) th::cbrt((real) x), cbrtl(x), 1e-8L, 0, "cbrt over the whole range"); t.approx((double) th::radians((real) x), (ld) x * PIl / 180, 1e-15L, 0, "radians over the whole range"); if (a < 1e298L) t.approx((double) th::degrees((real) x), (ld) x * 180 / PIl, 1e-15L, 0, "degrees over the whole range"); t.eq((double) th::abs((real) x), std::fabs(x), "abs over the whole range"); t.eq(th::sgn((real) x), x > 0 ? 1 : -1, "sign over the whole range"); t.approx((double) th::atan((real) x), atanl(x), 3e-8L, 0, "atan over the whole range");
	double y = t.rlogs(-300, 300); NOTE(y); if (fabsl(logl(fabsl(y)) - logl(a)) < 600) t.approx((double) th::atan2((real) y, (real) x), atan2l(y, x), 3e-8L, 0, "atan2 over the whole range"); t.eq((double) th::max((real) x, (real) y), std::max(x, y), "max over the whole range"); t.eq((double) th::min((real) x, (real) y), std::min(x, y), "min over the whole range"); int n = (int) t.i(2, 12); NOTE(n); if (a > 1e-290L) { real r = th::root((real) a, n); t.approx((double) r, powl(a, 1.0L / n), 1e-7L, 0, "root over the whole range"); }
	if (a < 1e150L) t.approx((double) th::asinh((real) x), asinhl(x), TIGHT ? 1e-15L : 2e-8L, TIGHT ? 1e-15L : 2e-8L, "asinh over the whole range"); if (a > 1 && a < 1e150L) t.approx((double) th::acosh((real) a), acoshl(a), TIGHT ? 1e-15L : 2e-8L, TIGHT ? 1e-15L : 2e-8L, "acosh over the whole range");
}
LAW(exponential_range, 80000) {
	double x = t.coin() ? t.r(-708, 709) : t.pick(std::vector<double>{709, 709.5, -708, -20, 20, -0.5, 0.999999, -1}) + (t.coin() ? 0 : t.rlogs(-12, -3)); NOTE(x); t.nontrivial(std::fabs(x) > 1); ld w = expl(x); t.approx((double) th::exp((real) x), w, 1e-12L, 0, "exp over its range"); t.approx((double) th::sigmoid((real) x), 1 / (1 + expl(-(ld) x)), 1e-12L, 0, "sigmoid over its range"); if (x < 700 && x > -700) { t.approx((double) th::cosh((real) x), coshl(x), 1e-12L, 0, "cosh over its range"); t.approx((double) th::sinh((real) x), sinhl(x), 1e-12L, 1e-12L, "sinh over its range"); t.approx((double) th::expm1((real) x), expm1l(x), 1e-12L, 1e-15L, "expm1 over its range"); }
	t.close((double) th::tanh((real) x), tanhl(x), 1e-14L, "tanh over its range"); if (std::fabs(x) > 0.1) t.approx((double) th::coth((real) x), 1 / tanhl(x), 1e-12L, 0, "coth over its range");
}
// Next to the integers
LAW(next_to_integers, 40000) {
	int n = t.coin() ? (int) t.i(-3, 3) : (int) t.i(-1000000, 1000000); double up = std::nextafter((double) n, 1e300), down = std::nextafter((double) n, -1e300); if (n == 0) { up = t.rlog(-300, -1); down = -up; } NOTE(n); t.nontrivial(); t.eq(th::floor((real) up), n, "floor just above an integer"); t.eq(th::floor((real) n), n, "floor of an integer"); if (sizeof(real) == sizeof(double) || n != 0) t.eq(th::floor((real) down), n - 1, "floor just below an integer"); t.close((double) th::fract((real) up), up - n, 0, "fractional part just above an integer"); t.eq((double) th::fract((real) n), 0.0, "fractional part of an integer"); ld f = th::fract((real) down); t.close((double) f, (double) ((ld) down - (n - 1)), 1.2e-16L * (sizeof(real) == sizeof(double) ? 1 : 1000000000), "fractional part just below an integer");
	double e = n + t.rlogs(-12, -1); NOTE(e); t.eq(th::floor((real) e), (int) std::floor(e), "floor close to an integer");
}
LAW(inverse_hyperbolic_ends, 20000) {
	double d = t.rlog(-15, -0.01), x = 1 - d; NOTE(x); t.nontrivial(); ld tol = TIGHT ? 1e-15L : 2e-8L; for (int s : {1, -1}) if (x < 1) t.approx((double) th::atanh((real) (s * x)), atanhl(s * (ld) x), tol + 3e-16L / d * 0, 3e-16L / (1 - (ld) x) * 0 + tol * 4, "atanh next to the ends"); t.check(th::atanh((real) 1) == th::inf(), "atanh of one"); t.check(th::atanh((real) -1) == -th::inf(), "atanh of minus one"); double c = 1 + d; NOTE(c); t.approx((double) th::acosh((real) c), acoshl(c), TIGHT ? 1e-15L : 1e-7L, TIGHT ? 1e-15L + 2.3e-16L / acoshl(c) : 1e-7L, "acosh next to one"); t.eq((double) th::acosh((real) 1), 0.0, "acosh of one");
}
// Classification of numbers, whatever errno
LAW(classification, 20000) {
	int k = (int) t.i(0, 5); real x = k == 0 ? std::numeric_limits<real>::quiet_NaN() : k == 1 ? std::numeric_limits<real>::infinity() : k == 2 ? -std::numeric_limits<real>::infinity() : k == 3 ? (real) t.rlogs(-320, 308) : k == 4 ? (t.coin() ? 1 : -1) * std::numeric_limits<real>::max() : t.coin() ? -(real) 0 : std::numeric_limits<real>::denorm_min(); NOTE(k); NOTE(x); t.nontrivial(k != 3); errno = t.coin() ? 0 : EDOM; bool n = th::is_nan(x), i = th::is_inf(x); errno = 0; t.eq(n, k == 0, "is_nan"); t.eq(i, k == 1 || k == 2, "is_inf");
}
