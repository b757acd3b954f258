// C21: data sets and descriptive statistics
#include "common.hpp"
#include "linref.hpp"
#include <climits>
using namespace pbt;
typedef std::vector<ld> L;
static std::string str(const L& c) { std::string s; for (size_t i = 0; i < c.size() && i < 24; ++i) s += show((double) c[i]) + " "; return s; }
static L gen(T& t, size_t n) {
	L x(n); int kind = (int) t.i(0, 4); ld off = t.chance(1, 4) ? t.rlogs(2, 7) : 0, mag = t.chance(1, 4) ? t.rlog(-6, 6) : 1;
	for (auto& v : x) v = kind == 0 ? (ld) t.i(-5, 5) : kind == 1 ? (ld) t.rlogs(-4, 4) : kind == 2 ? (ld) t.i(0, 1) : (ld) t.r(-10, 10);
	for (auto& v : x) v = (real) (off + mag * v);
	if (kind == 4) std::sort(x.begin(), x.end()); return x;
}
template<typename V> struct Mk; template<> struct Mk<std::vector<real>> { static std::vector<real> go(const L& x) { std::vector<real> r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = (real) x[i]; return r; } };
template<> struct Mk<th::vec<real>> { static th::vec<real> go(const L& x) { th::vec<real> r((unsigned) x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = (real) x[i]; return r; } };
static ld sum(const L& x) { ld s = 0; for (ld v : x) s += v; return s; }
static ld mean(const L& x) { return sum(x) / x.size(); }
static ld central(const L& x, int k) { ld m = mean(x), s = 0; for (ld v : x) s += powl(v - m, k); return s; }

template<typename V> static void sums(T& t) {
	size_t n = t.chance(1, 20) ? t.n(120, 600) : t.n(1, 40); L x = gen(t, n), y = gen(t, n), z = gen(t, n); V X = Mk<V>::go(x), Y = Mk<V>::go(y), Z = Mk<V>::go(z); NOTE(n); t.note("x", str(x)); t.note("y", str(y)); t.nontrivial(n > 2); t.label_if(n > 128, "longer than the base case of the pairwise sum");
	ld S = sum(x), A = 0, P = 0, PA = 0, Q2 = 0, T3 = 0, TA = 0, D = 0, DA = 0, SS = 0; bool zero = false; for (size_t i = 0; i < n; ++i) { A += fabsl(x[i]); P += x[i] * y[i]; PA += fabsl(x[i] * y[i]); Q2 += x[i] * x[i] * y[i] * y[i]; T3 += x[i] * y[i] * z[i]; TA += fabsl(x[i] * y[i] * z[i]); if (y[i] == 0) zero = true; else { D += x[i] / y[i]; DA += fabsl(x[i] / y[i]); } SS += x[i] * x[i]; }
	ld e = 2.3e-16L * (n + 2); const V keep = X;
	t.close(th::sum(X), S, e * A, "sum"); t.close(th::sum_pairwise(X), S, e * A, "pairwise sum"); __float128 Sq = 0; for (ld v : x) Sq += v; t.close((ld) ((__float128) th::sum_compensated(X) - Sq), 0, 2.3e-16L * fabsl((ld) Sq) + 5e-32L * n * n * A, "error of the compensated sum");
	size_t from = t.n(0, n - 1), to = t.n(from + 1, n), base = t.n(1, 20); NOTE(from); NOTE(to); NOTE(base); ld part = 0; for (size_t i = from; i < to; ++i) part += x[i]; t.close(th::sum_pairwise(X, from, to, base), part, e * A, "pairwise sum of a range");
	t.close(th::product_sum(X, Y), P, e * PA, "sum of products"); t.close(th::product_sum_squares(X, Y), Q2, 4 * e * Q2, "sum of products of squares"); t.close(th::product_sum(X, Y, Z), T3, 2 * e * TA, "sum of triple products"); t.close(th::sum_squares(X), SS, e * SS, "sum of squares");
	int err; real q = with_errno(err, [&] { return th::quotient_sum(X, Y); }); if (zero) { t.is_nan(q, "sum of quotients by zero"); t.check(err != 0, "a division by zero is reported"); } else { t.close(q, D, 2 * e * DA, "sum of quotients"); t.check(err == 0, "a sum of quotients reported an error"); }
	ld mx = x[0], mn = x[0]; for (ld v : x) { mx = std::max(mx, v); mn = std::min(mn, v); } t.eq((double) th::max(X), (double) mx, "maximum"); t.eq((double) th::min(X), (double) mn, "minimum"); t.close(th::stats::range(X), mx - mn, 2.3e-16L * fabsl(mx - mn), "range"); t.close(th::stats::semidispersion(X), (mx - mn) / 2, 2.3e-16L * fabsl(mx - mn), "semidispersion");
	for (size_t i = 0; i < n; ++i) t.check(X[i] == keep[i], "the data is not modified");
	if (n > 1) { L w(y.begin(), y.end() - 1); V W = Mk<V>::go(w); t.is_nan(with_errno(err, [&] { return (double) th::product_sum(X, W); }), "sum of products of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return (double) th::quotient_sum(X, W); }), "sum of quotients of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return (double) th::product_sum(X, Y, W); }), "sum of triple products of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return (double) th::product_sum_squares(W, X); }), "sum of products of unequal sizes"); t.check(err != 0, "unequal sizes are reported");
		// whichever of them is the longer or the shorter
		L lw = y; lw.push_back(1); V LW = Mk<V>::go(lw); for (int k = 0; k < 3; ++k) { const V& O = t.coin() ? W : LW; t.is_nan(with_errno(err, [&] { return (double) th::product_sum(k == 0 ? O : X, k == 1 ? O : Y, k == 2 ? O : Z); }), "sum of triple products of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); if (k < 2) { t.is_nan(with_errno(err, [&] { return (double) th::product_sum(k == 0 ? O : X, k == 1 ? O : Y); }), "sum of products of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return (double) th::product_sum_squares(k == 0 ? O : X, k == 1 ? O : Y); }), "sum of products of squares of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); V o1 = O; for (size_t i = 0; i < (size_t) o1.size(); ++i) o1[i] = 1; t.is_nan(with_errno(err, [&] { return (double) th::quotient_sum(k == 0 ? o1 : X, k == 1 ? o1 : Y); }), "sum of quotients of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); } } }
}
LAW(sums_std, 40000) { sums<std::vector<real>>(t); }
LAW(sums_vec, 40000) { sums<th::vec<real>>(t); }

LAW(other_fields, 20000) {
	size_t n = t.sz(1, 12, 60); th::cvec c(n); th::vec<long long> k((unsigned) n); cld S(0, 0), P(1, 0); long long s = 0, p = 1, mx = LLONG_MIN, mn = LLONG_MAX; ld A = 0, M = 1;
	for (size_t i = 0; i < n; ++i) { c[i] = cplx((real) t.r(-3, 3), (real) t.r(-3, 3)); cld v(c[i].a, c[i].b); S += v; P *= v; A += std::abs(v); M *= std::max(1.0L, std::abs(v)); k[i] = t.i(-6, 6); s += k[i]; p *= k[i]; mx = std::max(mx, k[i]); mn = std::min(mn, k[i]); }
	NOTE(c); NOTE(k); t.nontrivial(n > 2);
	auto sc = th::sum(c); auto pc = th::product(c); ld e = 1e-15L * (n + 1); t.close(sc.a, S.real(), e * A, "sum of complex numbers"); t.close(sc.b, S.imag(), e * A, "sum of complex numbers"); t.close(pc.a, P.real(), 4 * e * M, "product of complex numbers"); t.close(pc.b, P.imag(), 4 * e * M, "product of complex numbers");
	t.eq((long long) th::sum(k), s, "sum of integers"); t.eq((long long) th::product(k), p, "product of integers"); t.eq((long long) th::max(k), mx, "largest integer"); t.eq((long long) th::min(k), mn, "smallest integer");
}

template<typename V> static void maps(T& t) {
	size_t n = t.sz(0, 20, 150), m = t.sz(0, 20, 150); L x = gen(t, n), y = gen(t, m); V X = Mk<V>::go(x), Y = Mk<V>::go(y); real a = (real) t.r(-2, 2); auto f = [&](real v) { return a * v + 1; }; NOTE(n); NOTE(m); t.nontrivial(n > 1 && m > 1);
	V r = th::map(f, X); t.eq((size_t) r.size(), n, "length of the mapped data"); for (size_t i = 0; i < n; ++i) { t.eq((double) r[i], (double) f(X[i]), "mapped element"); t.eq((double) X[i], (double) (real) x[i], "the source is not modified"); }
	V d = Y; int err; V& ref = *with_errno(err, [&] { return &th::map(f, X, d); }); t.check(&ref == &d, "a reference to the destination is returned");
	if (n == m) for (size_t i = 0; i < n; ++i) t.eq((double) d[i], (double) f(X[i]), "element mapped into a destination");
	else { t.check(err != 0, "a destination of another size is reported"); for (size_t i = 0; i < (size_t) d.size(); ++i) t.is_nan(d[i], "destination of another size"); }
	V c = th::concatenate(X, Y); t.eq((size_t) c.size(), n + m, "length of the concatenation"); for (size_t i = 0; i < n + m; ++i) t.eq((double) c[i], (double) (real) (i < n ? x[i] : y[i - n]), "element of the concatenation");
	V z = X; V& zr = th::apply(f, z); t.check(&zr == &z, "a reference to the data is returned"); for (size_t i = 0; i < n; ++i) t.eq((double) z[i], (double) f((real) x[i]), "element after applying a function");
	std::vector<int> ints = th::map<std::vector<int>>([](real v) { return v > 0 ? 1 : 0; }, X); t.eq(ints.size(), n, "length of data mapped to another type"); for (size_t i = 0; i < n; ++i) t.eq(ints[i], x[i] > 0 ? 1 : 0, "element mapped to another type");
}
LAW(maps_std, 20000) { maps<std::vector<real>>(t); }
LAW(maps_vec, 20000) { maps<th::vec<real>>(t); }

template<typename V> static void means(T& t) {
	size_t n = t.sz(1, 16, 80); L x(n), w(n); bool pos = t.coin(); for (size_t i = 0; i < n; ++i) { x[i] = (real) (pos ? t.rlog(-2, 2) : t.rnz(0.1, 10)); w[i] = (real) t.r(0.1, 5); } if (t.chance(1, 4)) for (auto& v : w) v = -v; V X = Mk<V>::go(x), W = Mk<V>::go(w); t.note("x", str(x)); t.note("w", str(w)); t.nontrivial(n > 1);
	ld A = 0, H = 0, HA = 0, G = 1, WS = 0, WP = 0, WA = 0, SS = 0; for (size_t i = 0; i < n; ++i) { A += fabsl(x[i]); H += 1 / x[i]; HA += fabsl(1 / x[i]); G *= x[i]; WS += fabsl(w[i]) * (w[0] < 0 ? -1 : 1); WP += w[i] * x[i]; WA += fabsl(w[i] * x[i]); SS += x[i] * x[i]; }
	int err; ld e = 1e-15L * (n + 2); t.close(th::arithmetic_mean(X), sum(x) / n, e * A / n, "arithmetic mean"); t.close(th::stats::mean(X), sum(x) / n, e * A / n, "mean");
	if (fabsl(H) > 1e-3 * HA) t.close(th::harmonic_mean(X), n / H, fabsl(n / H) * e * HA / fabsl(H) * 4, "harmonic mean");
	t.close(th::weighted_mean(X, W), WP / WS, 4 * e * WA / fabsl(WS), "weighted mean"); t.approx(th::quadratic_mean(X), sqrtl(SS / n), 4 * e, 0, "quadratic mean"); t.approx(th::product(X), G, 2 * e, 0, "product");
	real g = with_errno(err, [&] { return th::geometric_mean(X); }); if (G > 0 || n % 2) t.approx(g, (G < 0 ? -1 : 1) * powl(fabsl(G), 1.0L / n), 1e-7, 0, "geometric mean"); else { t.is_nan(g, "geometric mean of a negative product"); t.check(err != 0, "an even root of a negative number is reported"); }
	if (pos && n > 1) { ld h = th::harmonic_mean(X), a = th::arithmetic_mean(X), q = th::quadratic_mean(X); t.check(h <= g * (1 + 1e-6) && g <= a * (1 + 1e-6) && a <= q * (1 + 1e-6), "harmonic, geometric, arithmetic and quadratic means are ordered"); }
	size_t at = t.n(0, n - 1); V Zr = X; Zr[at] = 0; t.is_nan(with_errno(err, [&] { return (double) th::harmonic_mean(Zr); }), "harmonic mean with a zero"); t.check(err != 0, "a division by zero is reported");
}
LAW(means_std, 30000) { means<std::vector<real>>(t); }
LAW(means_vec, 30000) { means<th::vec<real>>(t); }

template<typename V> static void moments(T& t) {
	size_t n = t.sz(1, 40, 300); L x = gen(t, n), y = gen(t, n); V X = Mk<V>::go(x), Y = Mk<V>::go(y); unsigned c = (unsigned) t.n(0, 3); NOTE(n); NOTE(c); t.note("x", str(x)); t.note("y", str(y));
	ld m = mean(x), my = mean(y), s2 = central(x, 2), sy2 = central(y, 2), big = 0, bigy = 0; for (size_t i = 0; i < n; ++i) { big = std::max(big, fabsl(x[i])); bigy = std::max(bigy, fabsl(y[i])); } ld sp = sqrtl(s2 / n), spy = sqrtl(sy2 / n); t.nontrivial(n > 2 && sp > 0); t.label_if(sp < 1e-3 * big && sp > 0, "small spread around a large offset"); int err;
	// rounding of the data relative to their spread
	ld em = 2.3e-16L * (n + 4) * big, es = 4 * em * sqrtl(n) * (sqrtl(s2) + em) + 2.3e-16L * (n + 8) * s2;
	real tss = th::stats::total_sum_squares(X); t.close(tss, s2, es, "sum of squared deviations"); t.check(tss >= 0, "the sum of squared deviations is not negative");
	real v = with_errno(err, [&] { return th::stats::variance(X, c); }); real om, ov; bool bad = n <= c; if (bad) { t.is_nan(v, "variance with too few data"); t.check(err != 0, "too few data are reported"); } else { t.close(v, s2 / (n - c), es / (n - c), "variance"); t.check(err == 0, "a variance reported an error"); }
	with_errno(err, [&] { th::stats::moments2(X, om, ov, c); return 0; }); if (bad) { t.is_nan(om, "mean with too few data"); t.is_nan(ov, "variance with too few data"); t.check(err != 0, "too few data are reported"); } else { t.close(om, m, em, "mean"); t.close(ov, s2 / (n - c), es / (n - c), "variance"); }
	if (!bad) t.close((ld) th::stats::stdev(X, c) * th::stats::stdev(X, c), s2 / (n - c), es / (n - c) + 1e-15L * s2, "square of the standard deviation");
	if (n > 1) { t.close((ld) th::stats::stdom(X) * th::stats::stdom(X) * n, s2 / (n - 1), es / (n - 1) + 1e-15L * s2, "standard deviation of the mean"); if (fabsl(m) > 1e-6 * big && big > 1e-12L) t.close((ld) th::stats::standard_relative_error(X) * fabsl(m), sqrtl(s2 / (n - 1) / n), (sqrtl(s2) < 1e-3 * sqrtl(es) ? 2 * sqrtl(es) : es / sqrtl(s2 + 1e-300L)) * 2 + 2 * em / fabsl(m) * sp + sqrtl(es) * (s2 < 4 * es), "standard relative error"); }
	// two data sets
	ld cv = 0; for (size_t i = 0; i < n; ++i) cv += (x[i] - m) * (y[i] - my); ld emy = 2.3e-16L * (n + 4) * bigy, ec = 4 * n * (em * (spy + emy) + emy * (sp + em)) * 2 + 2.3e-16L * (n + 8) * sqrtl(s2 * sy2);
	real co = with_errno(err, [&] { return th::stats::covariance(X, Y, c); }); if (bad) { t.is_nan(co, "covariance with too few data"); t.check(err != 0, "too few data are reported"); } else t.close(co, cv / (n - c), ec / (n - c), "covariance");
	if (n > 1 && sp > 1e-5 * big && spy > 1e-5 * bigy) { real r = th::stats::correlation_coefficient(X, Y); t.close(r, cv / sqrtl(s2 * sy2), 4 * ec / sqrtl(s2 * sy2) + es / s2 * 4 + 1e-9, "correlation coefficient"); t.check(fabs(r) <= 1 + 1e-9, "the correlation is between -1 and 1"); t.close(th::stats::correlation_coefficient(X, X), 1, 1e-9, "correlation of a data set with itself"); }
	if (n > 1 && sp > 1e-5 * big) {
		unsigned lag = (unsigned) t.n(0, n - 1); NOTE(lag); ld num = 0; for (size_t i = lag; i < n; ++i) num += (x[i] - m) * (x[i - lag] - m); t.close(th::stats::autocorrelation(X, lag), num / s2, 8 * (em / sp) + 1e-13L, "autocorrelation");
		ld dev = 0; for (ld u : x) dev += fabsl(u - m); t.close(th::stats::absolute_deviation(X), dev / n, 4 * em + 1e-14L * dev, "mean absolute deviation");
		ld sd = sqrtl(s2 / (n - 1)), amp = 1; for (ld u : x) amp = std::max(amp, fabsl(u - m) / sd); ld ez = 40 * em / sp + 1e-12L; t.close(th::stats::skewness(X), central(x, 3) / n / (sd * sd * sd), ez * amp * amp * amp, "skewness"); t.close(th::stats::kurtosis(X), central(x, 4) / n / (sd * sd * sd * sd) - 3, ez * amp * amp * amp * amp, "kurtosis");
		V z = th::stats::normalize_z_score(X); t.eq((size_t) z.size(), n, "length of the normalised data"); for (size_t i = 0; i < n; ++i) t.close(z[i], (x[i] - m) / sd, ez * amp, "normalised value"); 
	}
	if (n > 1 && sp > 1e-5 * big) t.eq((double) th::stats::autocorrelation(X, (unsigned) n), 0.0, "autocorrelation with a lag as long as the data");
	t.is_nan(with_errno(err, [&] { return (double) th::stats::autocorrelation(X, (unsigned) n + 1); }), "autocorrelation with a lag beyond the data"); t.check(err != 0, "a lag beyond the data is reported");
	if (n > 1) { L w(y.begin(), y.end() - 1); V W = Mk<V>::go(w); t.is_nan(with_errno(err, [&] { return (double) th::stats::covariance(X, W); }), "covariance of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); }
}
LAW(moments_std, 40000) { moments<std::vector<real>>(t); }
LAW(moments_vec, 40000) { moments<th::vec<real>>(t); }

LAW(errors_and_residuals, 40000) {
	size_t n = t.sz(1, 20, 200); L o(n), e(n), s(n); for (size_t i = 0; i < n; ++i) { o[i] = (real) t.r(-10, 10); e[i] = (real) t.r(-10, 10); s[i] = (real) t.r(0.05, 3); } typedef std::vector<real> V; V O = Mk<V>::go(o), E = Mk<V>::go(e), S = Mk<V>::go(s); th::vec<real> Sv = Mk<th::vec<real>>::go(s);
	t.note("o", str(o)); t.note("e", str(e)); t.note("sigma", str(s)); t.nontrivial(n > 1); int err;
	ld c = 0, ss = 0, rel = 0; bool z = false; real a = (real) t.r(-3, 3), b = (real) t.r(-3, 3); ld lin = 0, lt = 0; NOTE(a); NOTE(b); for (size_t i = 0; i < n; ++i) { c += powl((o[i] - e[i]) / s[i], 2); ss += s[i] * s[i]; if (o[i] == 0) z = true; else rel += powl(s[i] / o[i], 2); ld d = (e[i] - a - b * o[i]) / s[i]; lin += d * d; lt += powl((fabsl(e[i]) + fabsl(a) + fabsl(b * o[i])) / s[i], 2); }
	t.approx(th::stats::chi_square(O, E, S), c, 1e-13, 1e-13, "chi squared"); t.approx(th::stats::propagate_sum(S), sqrtl(ss), 1e-14, 0, "error of a sum"); t.close(th::stats::chi_square_linear(O, E, Sv, a, b), lin, 1e-13L * lt, "chi squared of a line");
	real p = with_errno(err, [&] { return th::stats::propagate_product(S, O); }); if (z) { t.is_nan(p, "relative error of a product with a null factor"); t.check(err != 0, "a division by zero is reported"); } else t.approx(p, sqrtl(rel), 1e-14, 0, "relative error of a product");
	real rc = with_errno(err, [&] { return th::stats::reduced_chi_square_linear(O, E, S, a, b); }); if (n <= 2) { t.is_nan(rc, "reduced chi squared without degrees of freedom"); t.check(err != 0, "missing degrees of freedom are reported"); } else t.close(rc, lin / (n - 2), 1e-13L * lt, "reduced chi squared of a line");
	t.approx(th::stats::z_score(O[0], E[0], S[0]), (o[0] - e[0]) / s[0], 1e-15, 0, "z score");
	size_t at = t.n(0, n - 1); V Z = S; Z[at] = 0; t.is_nan(with_errno(err, [&] { return (double) th::stats::chi_square(O, E, Z); }), "chi squared with a null error"); t.check(err != 0, "a null error is reported"); t.is_nan(with_errno(err, [&] { return (double) th::stats::chi_square_linear(O, E, Z, a, b); }), "chi squared of a line with a null error"); t.check(err != 0, "a null error is reported");
	V W(S.begin(), S.end() - 1); if (t.coin()) { W = S; W.push_back(1); } t.is_nan(with_errno(err, [&] { return (double) th::stats::chi_square(O, E, W); }), "chi squared of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return (double) th::stats::chi_square_linear(O, W, S, a, b); }), "chi squared of a line of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return (double) th::stats::propagate_product(W, O); }), "relative error of unequal sizes"); t.check(err != 0, "unequal sizes are reported");
}

LAW(gaussian_expectations, 20000) {
	// moments of the Gaussian: a polynomial is integrated exactly
	size_t d = t.n(0, 8); L c(d + 1); for (auto& v : c) v = (real) t.r(-2, 2); ld mu = t.r(-2, 2), s = t.r(0.1, 2); t.note("coefficients", str(c)); NOTE((double) mu); NOTE((double) s); t.nontrivial(d > 1);
	L m(d + 2, 0); m[0] = 1; if (d) m[1] = mu; for (size_t k = 2; k <= d; ++k) m[k] = mu * m[k - 1] + (k - 1) * s * s * m[k - 2]; ld w = 0, A = 0; for (size_t k = 0; k <= d; ++k) { w += c[k] * m[k]; ld q = 1, b = fabsl(mu) + 3 * s; for (size_t i = 0; i < k; ++i) q *= b; A += fabsl(c[k]) * (q + fabsl(m[k])); }
	t.close(th::stats::gaussian_expectation([&](real x) { ld r = 0; for (size_t i = d + 1; i--;) r = r * x + c[i]; return (real) r; }, (real) mu, (real) s), w, 1e-12L * (1 + A), "expectation of a polynomial under a Gaussian");
}

LAW(empty_data, 5000) {
	std::vector<real> X; th::vec<real> V; bool std_ = t.coin(); NOTE(std_); t.nontrivial(); int err;
	#define EMPTY(F) t.is_nan(with_errno(err, [&] { return std_ ? (double) F(X) : (double) F(V); }), #F " of no data"); t.check(err != 0, #F ": no data is reported");
	EMPTY(th::product) EMPTY(th::sum_squares) EMPTY(th::max) EMPTY(th::min) EMPTY(th::arithmetic_mean) EMPTY(th::harmonic_mean) EMPTY(th::geometric_mean) EMPTY(th::quadratic_mean) EMPTY(th::stats::mean) EMPTY(th::stats::range) EMPTY(th::stats::total_sum_squares) EMPTY(th::stats::variance) EMPTY(th::stats::stdev) EMPTY(th::stats::stdom) EMPTY(th::stats::autocorrelation) EMPTY(th::stats::absolute_deviation) EMPTY(th::stats::skewness) EMPTY(th::stats::kurtosis)
	t.eq((double) (std_ ? th::sum(X) : th::sum(V)), 0.0, "sum of no data"); t.eq((double) (std_ ? th::sum_compensated(X) : th::sum_compensated(V)), 0.0, "compensated sum of no data");
	t.is_nan(with_errno(err, [&] { return std_ ? (double) th::quotient_sum(X, X) : (double) th::quotient_sum(V, V); }), "sum of quotients of no data"); t.check(err != 0, "no data is reported");
	t.is_nan(with_errno(err, [&] { return std_ ? (double) th::product_sum(X, X) : (double) th::product_sum(V, V); }), "sum of products of no data"); t.check(err != 0, "no data is reported");
	t.is_nan(with_errno(err, [&] { return std_ ? (double) th::stats::autocorrelation(X, 0) : (double) th::stats::autocorrelation(V, 0); }), "autocorrelation of no data"); t.check(err != 0, "no data is reported");
}

// The unit of the data is arbitrary, and so is the order where it has no meaning
template<typename V> static void units(T& t) {
	size_t n = t.sz(2, 30, 300); L x(n), y(n), s(n), xu(n), yu(n), su(n); int kind = (int) t.i(0, 3); real u = std::ldexp((real) 1, (int) t.i(-150, 150)), w = std::ldexp((real) 1, (int) t.i(-150, 150)); ld off = t.coin() ? 0 : t.rlogs(-1, 3);
	for (size_t i = 0; i < n; ++i) { x[i] = (real) (off + (kind == 0 ? (ld) t.i(-3, 3) : kind == 1 ? t.rlogs(-5, 2) : t.r(-10, 10))); y[i] = (real) (kind == 3 ? 2 * x[i] + t.rlogs(-6, -1) : t.r(-10, 10)); s[i] = (real) t.rlog(-3, 2); xu[i] = x[i] * u; yu[i] = y[i] * w; su[i] = s[i] * w; }
	V X = Mk<V>::go(x), Y = Mk<V>::go(y), S = Mk<V>::go(s), XU = Mk<V>::go(xu), YU = Mk<V>::go(yu), SU = Mk<V>::go(su); NOTE(n); NOTE(u); NOTE(w); t.note("x", str(x)); t.note("y", str(y)); t.note("s", str(s)); t.nontrivial(n > 2 && u != 1); int err; namespace st = th::stats;
	#define SAME(got, want, what) { real wv = (want); real gv = with_errno(err, [&] { return (real) (got); }); if (!std::isnan((double) wv)) t.check(err == 0, std::string(what) + " in other units reported an error"); if (std::isnan((double) wv) || std::isinf((double) wv)) t.check(std::isnan((double) gv) == std::isnan((double) wv), std::string(what) + " in other units"); else t.approx(gv, wv, 1e-13L, 0, std::string(what) + " in other units"); }
	SAME(th::sum(XU) / u, th::sum(X), "sum") SAME(th::sum_compensated(XU) / u, th::sum_compensated(X), "compensated sum") SAME(th::arithmetic_mean(XU) / u, th::arithmetic_mean(X), "mean") SAME(th::quadratic_mean(XU) / u, th::quadratic_mean(X), "quadratic mean") SAME(th::weighted_mean(XU, SU) / u, th::weighted_mean(X, S), "weighted mean") SAME(th::product_sum(XU, YU) / u / w, th::product_sum(X, Y), "sum of products") SAME(th::sum_squares(XU) / u / u, th::sum_squares(X), "sum of squares") SAME(th::quotient_sum(XU, SU) / u * w, th::quotient_sum(X, S), "sum of quotients")
	bool zero = false; for (ld v : x) zero |= v == 0; if (!zero) SAME(th::harmonic_mean(XU) / u, th::harmonic_mean(X), "harmonic mean")
	SAME(th::max(XU) / u, th::max(X), "maximum") SAME(th::min(XU) / u, th::min(X), "minimum") SAME(st::range(XU) / u, st::range(X), "range") SAME(st::semidispersion(XU) / u, st::semidispersion(X), "semidispersion") SAME(st::total_sum_squares(XU) / u / u, st::total_sum_squares(X), "sum of squared deviations") SAME(st::variance(XU) / u / u, st::variance(X), "variance") SAME(st::stdev(XU) / u, st::stdev(X), "standard deviation") SAME(st::stdom(XU) / u, st::stdom(X), "standard deviation of the mean") SAME(st::absolute_deviation(XU) / u, st::absolute_deviation(X), "absolute deviation")
	if (th::arithmetic_mean(X) != 0) SAME(st::standard_relative_error(XU), st::standard_relative_error(X), "standard relative error")
	SAME(st::covariance(XU, YU) / u / w, st::covariance(X, Y), "covariance") if (st::stdev(X) > 0) { SAME(st::correlation_coefficient(XU, YU), st::correlation_coefficient(X, Y), "correlation coefficient") SAME(st::autocorrelation(XU), st::autocorrelation(X), "autocorrelation") SAME(st::skewness(XU), st::skewness(X), "skewness") SAME(st::kurtosis(XU), st::kurtosis(X), "kurtosis") V z = st::normalize_z_score(X), zu = st::normalize_z_score(XU); for (size_t i = 0; i < n; ++i) t.approx(zu[i], z[i], 1e-13L, 0, "normalised values in other units"); }
	SAME(st::propagate_sum(SU) / w, st::propagate_sum(S), "error of a sum") V T1 = YU; for (size_t i = 0; i < n; ++i) if (T1[i] == 0) T1[i] = w; V T2 = T1; for (size_t i = 0; i < n; ++i) T2[i] = T1[i] / w; SAME(st::propagate_product(SU, T1), st::propagate_product(S, T2), "relative error of a product") SAME(st::chi_square(YU, T1, SU), st::chi_square(Y, T2, S), "chi squared") real a = (real) t.r(-3, 3), b = (real) t.r(-3, 3); NOTE(a); NOTE(b); SAME(st::chi_square_linear(XU, YU, SU, a * w, b * w / u), st::chi_square_linear(X, Y, S, a, b), "chi squared of a line") if (n > 2) SAME(st::reduced_chi_square_linear(XU, YU, SU, a * w, b * w / u), st::reduced_chi_square_linear(X, Y, S, a, b), "reduced chi squared of a line")
	#undef SAME
	// reversing the data
	V R = X; for (size_t i = 0; i < n; ++i) R[i] = X[n - 1 - i]; ld big = 0; for (ld v : x) big = std::max(big, fabsl(v)); ld e = 1e-15L * (n + 4) * big; t.close(th::sum(R), th::sum(X), e * n, "sum of the reversed data"); t.close(st::stdev(R), st::stdev(X), 4 * e + 4e-8L * big * (st::stdev(X) < 1e-6 * big), "standard deviation of the reversed data"); t.eq((double) st::range(R), (double) st::range(X), "range of the reversed data");
}
LAW(units_std, 20000) { units<std::vector<real>>(t); }
LAW(units_vec, 20000) { units<th::vec<real>>(t); }

// Tens of thousands of data: no size is special, and the pairwise sum keeps its accuracy
template<typename V> static void lots(T& t) {
	size_t n = t.n(3000, 150000); uint64_t s = t.u64() | 1; NOTE(n); NOTE(s); t.nontrivial(); t.label_if(n > 65536, "more than 65536 data"); auto next = [&] { s = s * 6364136223846793005ull + 1442695040888963407ull; return (ld) (s >> 11) / 9007199254740992.0L; }; ld off = t.coin() ? 0 : t.r(1, 100); L x(n), y(n); for (size_t i = 0; i < n; ++i) { x[i] = (real) (off + next()); y[i] = (real) (1 + next() + 0.5L * x[i]); } V X = Mk<V>::go(x), Y = Mk<V>::go(y);
	ld S = sum(x), m = S / n, my = mean(y), tss = 0, cov = 0, ty = 0, P = 0, SS = 0, Q = 0, H = 0, ad = 0, mx = x[0], mn = x[0]; for (size_t i = 0; i < n; ++i) { ld d = x[i] - m, e = y[i] - my; tss += d * d; ty += e * e; cov += d * e; P += x[i] * y[i]; SS += x[i] * x[i]; Q += x[i] / y[i]; H += 1 / y[i]; ad += fabsl(d); mx = std::max(mx, x[i]); mn = std::min(mn, x[i]); }
	ld e = 2.3e-16L * 160; t.approx(th::sum(X), S, e, 0, "sum of many data"); t.approx(th::sum_pairwise(X), S, e, 0, "pairwise sum of many data"); t.approx(th::sum_compensated(X), S, 5e-16L, 0, "compensated sum of many data"); size_t from = t.n(0, n / 2), to = t.n(from + 1, n); NOTE(from); NOTE(to); ld part = 0; for (size_t i = from; i < to; ++i) part += x[i]; t.approx(th::sum_pairwise(X, from, to), part, e, 0, "pairwise sum of a long range"); ld r = 2.3e-16L * n; t.approx(th::product_sum(X, Y), P, r, 0, "sum of many products"); t.approx(th::sum_squares(X), SS, r, 0, "sum of many squares"); t.approx(th::quotient_sum(X, Y), Q, r, 0, "sum of many quotients"); t.eq((double) th::max(X), (double) mx, "maximum of many data"); t.eq((double) th::min(X), (double) mn, "minimum of many data");
	t.approx(th::stats::mean(X), m, 2 * e, 0, "mean of many data"); t.approx(th::harmonic_mean(Y), n / H, r, 0, "harmonic mean of many data"); t.approx(th::quadratic_mean(X), sqrtl(SS / n), r, 0, "quadratic mean of many data"); ld g = 1e-9L; t.approx(th::stats::total_sum_squares(X), tss, g, 0, "sum of squares of many data"); t.approx(th::stats::variance(X), tss / (n - 1), g, 0, "variance of many data"); t.approx(th::stats::stdev(X), sqrtl(tss / (n - 1)), g, 0, "deviation of many data"); t.approx(th::stats::stdom(X), sqrtl(tss / (n - 1) / n), g, 0, "deviation of the mean of many data"); real am, av; th::stats::moments2(X, am, av); t.approx(am, m, 1e-11L, 0, "mean of many data, with the variance"); t.approx(av, tss / (n - 1), g, 0, "variance of many data, with the mean"); t.approx(th::stats::covariance(X, Y), cov / (n - 1), g, 0, "covariance of many data"); t.approx(th::stats::correlation_coefficient(X, Y), cov / sqrtl(tss * ty), g, 0, "correlation of many data"); t.approx(th::stats::absolute_deviation(X), ad / n, g, 0, "absolute deviation of many data");
	unsigned lag = (unsigned) t.n(1, n / 2); NOTE(lag); ld ac = 0; for (size_t i = lag; i < n; ++i) ac += (x[i] - m) * (x[i - lag] - m); t.close(th::stats::autocorrelation(X, lag), ac / tss, g, "autocorrelation of many data"); V C = th::concatenate(X, Y); t.eq((size_t) C.size(), 2 * n, "size of many data joined"); for (size_t i = 0; i < 2 * n; ++i) if (!(C[i] == (i < n ? X[i] : Y[i - n]))) t.fail("datum " + std::to_string(i) + " of many joined"); V z = th::stats::normalize_z_score(X); ld sz = 0; for (size_t i = 0; i < n; ++i) sz += (ld) z[i] * z[i]; t.approx(sz, n - 1, g, 0, "normalisation of many data");
}
LAW(many_data_std, 40) { lots<std::vector<real>>(t); }
LAW(many_data_vec, 40) { lots<th::vec<real>>(t); }
