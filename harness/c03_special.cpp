// C03: special functions
#include "common.hpp"
using namespace pbt;
namespace sp = theoretica::special;

// The portable logarithm is accurate to about 1e-9
#ifdef THEORETICA_X86
static const ld LT = 1e-9;
#else
static const ld LT = 1e-7;
#endif

LAW(gamma_of_naturals, 20000) {
	unsigned k = (unsigned) t.n(1, 171);
	NOTE(k); t.nontrivial(k > 2);
	t.label_if(k > 21, "(k-1)! exceeds 64 bits");
	t.approx((double) sp::gamma(k), tgammal(k), 1e-12, 0, "gamma(unsigned)");
	t.approx((double) sp::gamma((real) k), tgammal(k), 1e-12, 0, "gamma(real) of an integer");
	if (k < 171) t.approx((double) sp::pi((real) k), tgammal((ld) k + 1), 1e-12, 0, "pi(k) = k!");
}

LAW(half_gamma_of_naturals, 20000) {
	unsigned k = (unsigned) t.n(1, 342);
	NOTE(k); t.nontrivial(k > 2);
	t.label_if(k % 2 == 1, "odd"); t.label_if(k > 34, "beyond 64-bit factorials");
	t.approx((double) sp::half_gamma(k), tgammal((ld) k / 2), 1e-12, 0, "half_gamma");
}

LAW(lngamma_positive, 60000) {
	double x = t.chance(1, 3) ? t.r(0.125, 50) : t.rlog(-4, 6);
	NOTE(x); t.nontrivial(x != 1 && x != 2);
	t.approx((double) sp::lngamma((real) x), lgammal(x), LT, 4 * LT, "lngamma");
}

LAW(gamma_positive, 60000) {
	double x = t.chance(1, 3) ? t.r(0.125, 30) : t.r(0.01, 165);
	NOTE(x); t.nontrivial(x != std::floor(x));
	t.approx((double) sp::gamma((real) x), tgammal(x), 100 * LT, 0, "gamma");
	// functional equation
	t.approx((double) sp::gamma((real) (x + 1)), (ld) x * sp::gamma((real) x), 200 * LT, 0, "gamma(x + 1) = x gamma(x)");
}

LAW(gamma_negative, 60000) {
	double x = -t.r(0.01, 20);
	double f = x - std::floor(x);
	if (f < 1e-3 || f > 1 - 1e-3) x = std::floor(x) + 0.5;
	NOTE(x); t.nontrivial();
	ld g = tgammal(x);
	t.label(g > 0 ? "positive value" : "negative value");
	t.approx((double) sp::gamma((real) x), g, 1e4 * LT, 0, "gamma of a negative argument");
	if (g > 0) t.approx((double) sp::lngamma((real) x), logl(g), 1e4 * LT, 1e4 * LT, "lngamma of a negative argument with positive gamma");
}

LAW(beta_matches, 60000) {
	double a = t.r(0.125, 30), b = t.r(0.125, 30);
	NOTE(a); NOTE(b); t.nontrivial(a != b);
	ld w = expl(lgammal(a) + lgammal(b) - lgammal((ld) a + b));
	t.approx((double) sp::beta((real) a, (real) b), w, 100 * LT, 0, "beta");
	t.approx((double) sp::beta((real) b, (real) a), (double) sp::beta((real) a, (real) b), 100 * LT, 0, "beta is symmetric");
}

// Beyond the largest representable value the function is infinite, for numbers of any size
LAW(gamma_overflow, 5000) {
	real x = (real) (t.coin() ? floorl(t.rlog(2.5, 30)) : t.rlog(2.5, 30)); NOTE(x); t.nontrivial(x > 4e9); real g = sp::gamma(x); t.check(std::isinf((double) g) && g > 0, "the Gamma function overflows"); real p = sp::pi(x); t.check(std::isinf((double) p) && p > 0, "the Pi function overflows");
	real l = sp::lngamma(x); t.approx(l, lgammal(x), 1e-9L, 0, "logarithm of the Gamma function of a large number");
}

// Poles, and large negative numbers where the function vanishes
LAW(gamma_near_poles, 60000) {
	int n = (int) t.i(0, 30); ld d = t.rlogs(-11, -0.302); double x = (double) (-n + d); NOTE(x); t.nontrivial(); if (x == std::floor(x)) t.discard(); ld dx = fabsl(x - roundl(x)); t.label_if(dx < 1e-6L, "next to a pole"); if (x < 0 && x - std::floor(x) < 1e-14) t.discard(); ld g = tgammal(x), tol = 400 * LT + 4e-16L * (n + 1) / dx;
	t.approx((double) sp::gamma((real) x), g, tol, 0, "gamma near a pole"); t.approx((double) sp::pi((real) (x - 1)), tgammal((ld) (x - 1) + 1), 400 * LT + 1e-15L * (n + 2) / dx, 0, "pi near a pole"); int err; real l = with_errno(err, [&] { return sp::lngamma((real) x); }); if (x > 0) t.approx(l, lgammal(x), LT, 4 * LT + tol, "lngamma near zero"); else if (g > 0) { t.approx(l, lgammal(x), LT, 4 * LT + tol, "lngamma near a pole"); t.eq(err, 0, "lngamma reported an error"); } else { t.is_nan(l, "lngamma where the function is negative"); t.check(err != 0, "a negative function is reported"); }
}
LAW(lngamma_negative, 40000) {
	double x = -t.r(0.05, 900); ld f = fabsl(x - roundl(x)); if (f < 1e-3L) x = std::floor(x) + 0.5; NOTE(x); t.nontrivial(x < -20); bool neg = ((long long) std::floor(-x)) % 2 == 0; int err; real l = with_errno(err, [&] { return sp::lngamma((real) x); }); if (neg) { t.is_nan(l, "lngamma where the function is negative"); t.check(err != 0, "a negative function is reported"); } else { t.approx(l, lgammal(x), 4 * LT, 4 * LT + 1e-12L, "lngamma of a negative number"); t.eq(err, 0, "lngamma reported an error"); }
	if (x > -160) t.approx((double) sp::gamma((real) x), tgammal(x), 1000 * LT, 1e-290L, "gamma of a negative number");
}
LAW(beta_range, 60000) {
	double a = t.coin() ? t.rlog(-3, 2.6) : (double) t.i(1, 200), b = t.chance(1, 5) ? a : t.coin() ? t.rlog(-3, 2.6) : (double) t.i(1, 200); NOTE(a); NOTE(b); t.nontrivial(); t.label_if(a == b, "equal arguments"); ld w = lgammal(a) + lgammal(b) - lgammal((ld) a + b); if (w > -650) t.approx((double) sp::beta((real) a, (real) b), expl(w), LT * 10 + 1e-15L * (fabsl(lgammal(a)) + fabsl(lgammal(b)) + fabsl(lgammal((ld) a + b))) + LT * (LT > 1e-8L ? 3000 : 0), 0, "beta over its range");
}
// Next to the positive integers the function does not jump
LAW(gamma_near_integers, 40000) {
	int n = (int) t.i(1, 160); double x = n + t.rlogs(-15, -2); NOTE(x); t.nontrivial(x != n); t.approx((double) sp::gamma((real) x), tgammal(x), LT * 10, 0, "gamma next to an integer"); t.approx((double) sp::pi((real) (x - 1)), tgammal((ld) (x - 1) + 1), LT * 10, 0, "pi next to an integer");
}
