// C23: linear regression and propagation of uncertainties
#include "common.hpp"
#include "linref.hpp"
#include "jets.hpp"
using namespace pbt;
namespace rg = th::regression;
typedef std::vector<ld> L;
static std::string str(const L& c) { std::string s; for (ld v : c) s += show((double) v) + " "; return s; }
template<typename V> struct Mk; template<> struct Mk<std::vector<real>> { static std::vector<real> go(const L& x) { std::vector<real> r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = (real) x[i]; return r; } };
template<> struct Mk<th::vec<real>> { static th::vec<real> go(const L& x) { th::vec<real> r((unsigned) x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = (real) x[i]; return r; } };

// Weighted least squares in extended precision, with bounds on the rounding error of the normal equations
struct Ref {
	ld A, B, vA, vB, cov, tA, tB, tv, D, cond;
	Ref(const L& x, const L& y, const L& w) {
		ld n = x.size(), S = 0, Sx = 0, Sxx = 0, Sy = 0, Sxy = 0, ax = 0, ay = 0, axy = 0;
		for (size_t i = 0; i < x.size(); ++i) { S += w[i]; Sx += w[i] * x[i]; Sxx += w[i] * x[i] * x[i]; Sy += w[i] * y[i]; Sxy += w[i] * x[i] * y[i]; ax += w[i] * fabsl(x[i]); ay += w[i] * fabsl(y[i]); axy += w[i] * fabsl(x[i] * y[i]); }
		ld mx = Sx / S, my = Sy / S, c = 0, d = 0; for (size_t i = 0; i < x.size(); ++i) { c += w[i] * (x[i] - mx) * (y[i] - my); d += w[i] * (x[i] - mx) * (x[i] - mx); }
		D = S * d; B = c / d; A = my - B * mx; vA = Sxx / D; vB = S / D; cov = -Sx / D;
		ld e = 2.3e-16L * 4 * (n + 4); cond = (S * Sxx + ax * ax) / D;
		tA = e * ((Sxx * ay + ax * axy) / D + fabsl(A) * cond); tB = e * ((S * axy + ax * ay) / D + fabsl(B) * cond); tv = e * cond;
	}
};
struct Data { L x, y, w, s; ld unit, unity; };
static Data gen(T& t, bool weights) {
	Data d; size_t n = t.n(3, t.chance(1, 40) ? 300 : t.chance(1, 10) ? 60 : 12); int kind = (int) t.i(0, 3); d.unit = t.chance(1, 3) ? t.rlog(-12, 9) : 1; d.unity = t.chance(1, 4) ? t.rlog(-9, 9) : 1; ld off = t.chance(1, 3) ? t.r(-50, 50) : 0, a = t.r(-20, 20), b = t.r(-20, 20), noise = t.pick(std::vector<ld>{0, 1e-3L, 1, 30});
	for (size_t i = 0; i < n; ++i) { ld x = off + (kind == 0 ? (ld) t.i(-6, 6) : kind == 1 ? (ld) i : kind == 2 ? t.r(-10, 10) : (ld) t.rlogs(-2, 1)); d.x.push_back((real) (x * d.unit)); d.y.push_back((real) ((a + b * x + noise * t.r(-1, 1)) * d.unity)); ld s = weights ? (ld) t.rlog(-2, 2) : 1; d.s.push_back((real) (s * d.unity)); d.w.push_back((real) (1 / (d.s.back() * d.s.back()))); }
	return d;
}
static void note(T& t, const Data& d) { t.note("x", str(d.x)); t.note("y", str(d.y)); t.note("sigma", str(d.s)); }
static ld resid(const L& x, const L& y, ld A, ld B) { ld s = 0; for (size_t i = 0; i < x.size(); ++i) { ld r = y[i] - A - B * x[i]; s += r * r; } return s; }
// Rounding error of the root of the sum of the squared residuals, given the coefficients
static ld tres(const L& x, const L& y, ld A, ld B) { ld m = 0; for (size_t i = 0; i < x.size(); ++i) m += fabsl(y[i]) + fabsl(A) + fabsl(B * x[i]); return 4.6e-16L * m; }
template<typename V> static void covar(T& t, const th::mat2& C, const Ref& r, ld s2) {
	t.close(C(0, 0), s2 * r.vA, s2 * r.vA * r.tv, "variance of the intercept"); t.close(C(1, 1), s2 * r.vB, s2 * r.vB * r.tv, "variance of the slope"); t.close(C(0, 1), s2 * r.cov, s2 * sqrtl(r.vA * r.vB) * r.tv, "covariance of the coefficients"); t.eq((double) C(1, 0), (double) C(0, 1), "symmetry of the covariance");
}
template<typename V> static void ols(T& t) {
	Data d = gen(t, false); L one(d.x.size(), 1); Ref r(d.x, d.y, one); if (!(r.cond < 1e6L)) t.discard(); V X = Mk<V>::go(d.x), Y = Mk<V>::go(d.y); real s = (real) (t.rlog(-3, 3) * d.unity); note(t, d); NOTE(s); t.nontrivial(true); t.label_if(d.unit < 1e-6, "data in small units"); t.label_if(d.x.size() > 12, "more than 12 points");
	int err; real A = 7, B = 7; th::mat2 C(7.0); real sA = 7, sB = 7;
	with_errno(err, [&] { rg::ols_linear(X, Y, A, B); return 0; }); t.check(err == 0, "an ordinary fit reported an error"); t.close(A, r.A, r.tA, "intercept"); t.close(B, r.B, r.tB, "slope");
	with_errno(err, [&] { rg::ols_linear(X, Y, s, A, B, sA, sB); return 0; }); t.check(err == 0, "a fit with uncertainties reported an error"); t.close(A, r.A, r.tA, "intercept with uncertainties"); t.close(B, r.B, r.tB, "slope with uncertainties"); t.close(sA, s * sqrtl(r.vA), s * sqrtl(r.vA) * r.tv, "uncertainty of the intercept"); t.close(sB, s * sqrtl(r.vB), s * sqrtl(r.vB) * r.tv, "uncertainty of the slope");
	with_errno(err, [&] { rg::ols_linear(X, Y, s, A, B, C); return 0; }); t.check(err == 0, "a fit with covariance reported an error"); t.close(A, r.A, r.tA, "intercept with covariance"); t.close(B, r.B, r.tB, "slope with covariance"); covar<V>(t, C, r, (ld) s * s);
	t.close(rg::ols_linear_intercept(X, Y), r.A, r.tA, "intercept alone"); t.close(rg::ols_linear_slope(X, Y), r.B, r.tB, "slope alone"); t.close(rg::ols_linear_sigma_A(X, Y, s), s * sqrtl(r.vA), s * sqrtl(r.vA) * r.tv, "uncertainty of the intercept alone"); t.close(rg::ols_linear_sigma_B(X, Y, s), s * sqrtl(r.vB), s * sqrtl(r.vB) * r.tv, "uncertainty of the slope alone");
	real a = (real) (t.coin() ? r.A : t.r(-5, 5) * d.unity), b = (real) (t.coin() ? r.B : t.r(-5, 5) * d.unity / d.unit); t.close(rg::ols_linear_error(X, Y, a, b), sqrtl(resid(d.x, d.y, a, b) / (d.x.size() - 2)), tres(d.x, d.y, a, b) + 1e-14L * sqrtl(resid(d.x, d.y, a, b)), "standard error of the residuals");
}
LAW(ordinary_std, 30000) { ols<std::vector<real>>(t); }
LAW(ordinary_vec, 30000) { ols<th::vec<real>>(t); }

template<typename V> static void wls(T& t) {
	Data d = gen(t, true); Ref r(d.x, d.y, d.w); if (!(r.cond < 1e6L)) t.discard(); V X = Mk<V>::go(d.x), Y = Mk<V>::go(d.y), W = Mk<V>::go(d.w); note(t, d); t.nontrivial(true);
	int err; real A = 7, B = 7; th::mat2 C(7.0); with_errno(err, [&] { rg::wls_linear(X, Y, W, A, B, C); return 0; }); t.check(err == 0, "a weighted fit reported an error"); t.close(A, r.A, r.tA, "weighted intercept"); t.close(B, r.B, r.tB, "weighted slope"); covar<V>(t, C, r, 1);
	t.close(rg::wls_linear_intercept(X, Y, W), r.A, r.tA, "weighted intercept alone"); t.close(rg::wls_linear_slope(X, Y, W), r.B, r.tB, "weighted slope alone");
}
LAW(weighted_std, 20000) { wls<std::vector<real>>(t); }
LAW(weighted_vec, 20000) { wls<th::vec<real>>(t); }

template<typename V> static void origin(T& t) {
	Data d = gen(t, true); size_t n = d.x.size(); if (t.chance(1, 4)) { size_t k = t.n(1, n); d.x.resize(k); d.y.resize(k); d.s.resize(k); d.w.resize(k); n = k; } V X = Mk<V>::go(d.x), Y = Mk<V>::go(d.y), W = Mk<V>::go(d.w); real s = (real) (t.rlog(-3, 3) * d.unity), B = 7, sB = 7; note(t, d); NOTE(s); t.nontrivial(n > 1);
	ld xx = 0, xy = 0, axy = 0, wxx = 0, wxy = 0, awxy = 0; for (size_t i = 0; i < n; ++i) { xx += d.x[i] * d.x[i]; xy += d.x[i] * d.y[i]; axy += fabsl(d.x[i] * d.y[i]); wxx += d.w[i] * d.x[i] * d.x[i]; wxy += d.w[i] * d.x[i] * d.y[i]; awxy += d.w[i] * fabsl(d.x[i] * d.y[i]); }
	int err; ld e = 4.6e-16L * (n + 4); with_errno(err, [&] { rg::ols_linear_orig(X, Y, s, B, sB); return 0; });
	if (xx == 0) { t.check(err != 0, "a fit with no abscissa is reported"); t.is_nan(B, "slope with no abscissa"); t.is_nan(sB, "uncertainty with no abscissa"); }
	else { t.check(err == 0, "a fit through the origin reported an error"); t.close(B, xy / xx, e * axy / xx, "slope through the origin"); t.close(sB, s / sqrtl(xx), e * s / sqrtl(xx), "uncertainty of the slope through the origin"); }
	B = 7; sB = 7; with_errno(err, [&] { rg::wls_linear_orig(X, Y, W, B, sB); return 0; });
	if (xx == 0) { t.check(err != 0, "a weighted fit with no abscissa is reported"); t.is_nan(B, "slope with no abscissa"); t.is_nan(sB, "uncertainty with no abscissa"); }
	else { t.check(err == 0, "a weighted fit through the origin reported an error"); t.close(B, wxy / wxx, e * awxy / wxx, "weighted slope through the origin"); t.close(sB, 1 / sqrtl(wxx), e / sqrtl(wxx), "uncertainty of the weighted slope through the origin"); }
}
LAW(origin_std, 20000) { origin<std::vector<real>>(t); }
LAW(origin_vec, 20000) { origin<th::vec<real>>(t); }

// Errors on both coordinates: the line minimises the sum of (y - A - Bx)^2 / (sy^2 + B^2 sx^2)
static ld deming_cost(const L& x, const L& y, ld B, ld sx, ld sy) { ld n = x.size(), mx = 0, my = 0; for (size_t i = 0; i < x.size(); ++i) { mx += x[i]; my += y[i]; } mx /= n; my /= n; ld s = 0; for (size_t i = 0; i < x.size(); ++i) { ld r = (y[i] - my) - B * (x[i] - mx); s += r * r; } return s / (sy * sy + B * B * sx * sx); }
LAW(both_errors, 30000) {
	size_t n = t.sz(3, 12, 90); L x(n), y(n); ld b = t.rlogs(-1, 1), a = t.r(-5, 5), noise = t.r(0, 2); for (size_t i = 0; i < n; ++i) { ld u = t.r(-10, 10); x[i] = (real) (u + noise * t.r(-1, 1)); y[i] = (real) (a + b * u + noise * t.r(-1, 1)); }
	ld wide = t.chance(1, 3) ? 9 : 1; real sx = (real) t.rlog(-wide, wide), sy = (real) t.rlog(-1, 1); t.note("x", str(x)); t.note("y", str(y)); NOTE(sx); NOTE(sy); t.nontrivial(noise > 0.01L); auto X = Mk<std::vector<real>>::go(x), Y = Mk<std::vector<real>>::go(y);
	ld mx = 0, my = 0, dx = 0, dy = 0, dxy = 0, ax = 0, ay = 0; for (size_t i = 0; i < n; ++i) { mx += x[i] / n; my += y[i] / n; } for (size_t i = 0; i < n; ++i) { dx += (x[i] - mx) * (x[i] - mx) / n; dy += (y[i] - my) * (y[i] - my) / n; dxy += (x[i] - mx) * (y[i] - my) / n; ax += x[i] * x[i] / n; ay += y[i] * y[i] / n; }
	if (dx < 0.1L || fabsl(dxy) < 0.05L * sqrtl(dx * dy)) t.discard();
	ld D = (ld) sx * sx * dy - (ld) sy * sy * dx, q = 2 * (ld) sx * sx * dxy, B = D < 0 ? -2 * (ld) sy * sy * dxy / (D - sqrtl(D * D + 4 * sx * sx * sy * sy * dxy * dxy)) : (D + sqrtl(D * D + 4 * (ld) sx * sx * sy * sy * dxy * dxy)) / q; if (D < 0) B = 4 * (ld) sx * sx * sy * sy * dxy * dxy / ((sqrtl(D * D + 4 * (ld) sx * sx * sy * sy * dxy * dxy) - D) * q);
	ld absD = (ld) sx * sx * ay + (ld) sy * sy * ax, tol = 2.3e-16L * 16 * (n + 4) * (fabsl(B) + (fabsl(B) * absD + fabsl((ld) sy * sy - (ld) sx * sx * B * B) * sqrtl(ax * ay)) / sqrtl(D * D + 4 * (ld) sx * sx * sy * sy * dxy * dxy));
	real A = 7, b2 = 7; th::mat2 C; int err; with_errno(err, [&] { rg::wls_linear(X, Y, sx, sy, A, b2, C); return 0; }); t.check(err == 0, "a fit with errors on both coordinates reported an error"); t.close(b2, B, tol, "slope with errors on both coordinates"); t.close(A, my - B * mx, tol * (fabsl(mx) + 1) + 1e-14L * (fabsl(my) + fabsl(B * mx)), "intercept with errors on both coordinates");
	ld f = deming_cost(x, y, b2, sx, sy); for (int k = 0; k < 4; ++k) { ld o = (ld) b2 * (1 + t.rlogs(-4, 1)); t.check(f <= deming_cost(x, y, o, sx, sy) * (1 + 1e-9L) + tol * tol, "no other slope is closer to the points"); }
	rg::linear_model m = with_errno(err, [&] { return rg::linear_model(X, Y, sx, sy); }); t.check(err == 0, "a model with errors on both coordinates reported an error"); t.eq((double) m.A, (double) A, "intercept of the model"); t.eq((double) m.B, (double) b2, "slope of the model"); ld R = resid(x, y, m.A, m.B); ld tr = tres(x, y, m.A, m.B) + 1e-13L * sqrtl(R), den = (ld) sy * sy + (ld) b2 * b2 * sx * sx; t.eq(m.ndf, (unsigned) n - 2, "degrees of freedom of the model"); t.close(m.err, sqrtl(R / (n - 2)), tr, "standard error of the model"); t.close(sqrtl(std::max(0.0L, (ld) m.chi_squared)), sqrtl(R / den), tr / sqrtl(den), "chi squared of the model"); t.approx(m.p_value, th::stats::pvalue_chi_squared(m.chi_squared, m.ndf), 1e-12, 1e-12, "p-value of the model");
}

template<typename V> static void model(T& t) {
	int kind = (int) t.i(0, 2); Data d = gen(t, kind == 2); size_t n = d.x.size(); L one(n, 1); Ref r(d.x, d.y, kind == 2 ? d.w : one); if (!(r.cond < 1e6L)) t.discard(); V X = Mk<V>::go(d.x), Y = Mk<V>::go(d.y), S = Mk<V>::go(d.s); real s = (real) (t.rlog(-2, 2) * d.unity); if (kind == 1) for (ld& v : d.s) v = s; note(t, d); NOTE(kind); t.nontrivial(true); t.label(kind == 0 ? "no uncertainty" : kind == 1 ? "one uncertainty" : "one uncertainty for each point");
	int err; rg::linear_model m = with_errno(err, [&] { return kind == 0 ? rg::linear_model(X, Y) : kind == 1 ? rg::linear_model(X, Y, s) : rg::linear_model(X, Y, S); }); t.check(err == 0, "a model reported an error");
	t.close(m.A, r.A, r.tA * 2, "intercept of the model"); t.close(m.B, r.B, r.tB * 2, "slope of the model"); t.eq(m.ndf, (unsigned) n - 2, "degrees of freedom"); ld R = resid(d.x, d.y, m.A, m.B), tr = tres(d.x, d.y, m.A, m.B) + 1e-13L * sqrtl(R); t.close(m.err, sqrtl(R / (n - 2)), tr, "standard error");
	if (kind == 0) { t.is_nan(m.sigma_A, "unknown uncertainty"); t.is_nan(m.sigma_B, "unknown uncertainty"); t.is_nan(m.chi_squared, "unknown chi squared"); t.is_nan(m.p_value, "unknown p-value"); }
	else {
		ld s2 = kind == 1 ? (ld) s * s : 1; t.close(m.sigma_A, sqrtl(s2 * r.vA), sqrtl(s2 * r.vA) * r.tv * 2, "uncertainty of the intercept"); t.close(m.sigma_B, sqrtl(s2 * r.vB), sqrtl(s2 * r.vB) * r.tv * 2, "uncertainty of the slope"); t.close(m.covar_mat(0, 1), s2 * r.cov, s2 * sqrtl(r.vA * r.vB) * r.tv * 2, "covariance of the coefficients");
		ld chi = 0, ms = 1e300L; for (size_t i = 0; i < n; ++i) { ld q = (d.y[i] - m.A - m.B * d.x[i]) / d.s[i]; chi += q * q; ms = std::min(ms, d.s[i]); } t.close(sqrtl(std::max(0.0L, (ld) m.chi_squared)), sqrtl(chi), tr / ms + 1e-13L * sqrtl(chi), "chi squared"); t.approx(m.p_value, th::stats::pvalue_chi_squared(m.chi_squared, m.ndf), 1e-12, 1e-12, "p-value");
	}
	real x = (real) (t.r(-20, 20) * d.unit); t.close(m(x), (ld) m.A + (ld) m.B * x, 4.6e-16L * (fabsl(m.A) + fabsl(m.B * x)), "value of the model");
	std::string text = m.to_string(); std::ostringstream o; o << m; t.eq(o.str(), text, "streamed model"); std::ostringstream a; a << "A = " << m.A; std::ostringstream b; b << "B = " << m.B; t.check(text.find(a.str()) != std::string::npos, "the intercept is printed"); t.check(text.find(b.str()) != std::string::npos, "the slope is printed"); t.check((text.find("+-") != std::string::npos) == (kind != 0), "uncertainties are printed when they are known"); t.check((text.find("Chi-squared") != std::string::npos) == (kind != 0), "the chi squared is printed when it is known");
	// Fitting again is as good as a new model, and a failed fit leaves nothing behind
	rg::linear_model u; if (t.coin()) u.fit(Y, X, S); if (kind == 0) u.fit(X, Y); else if (kind == 1) u.fit(X, Y, s); else u.fit(X, Y, S); t.eq((double) u.A, (double) m.A, "intercept of a model fitted again"); t.eq((double) u.B, (double) m.B, "slope of a model fitted again"); t.eq((double) u.err, (double) m.err, "error of a model fitted again"); if (kind) t.eq((double) u.chi_squared, (double) m.chi_squared, "chi squared of a model fitted again"); else { t.is_nan(u.chi_squared, "chi squared of a model fitted again"); t.is_nan(u.sigma_A, "uncertainty of a model fitted again"); }
	L sh(d.y.begin(), d.y.end() - 1); V Z = Mk<V>::go(sh); with_errno(err, [&] { if (kind == 0) u.fit(X, Z); else if (kind == 1) u.fit(X, Z, s); else u.fit(X, Z, S); return 0; }); t.check(err != 0, "data of unequal sizes is reported");
	for (real v : {u.A, u.B, u.sigma_A, u.sigma_B, u.err, u.chi_squared, u.p_value}) t.is_nan(v, "result of a failed fit");
}
LAW(model_std, 20000) { model<std::vector<real>>(t); }
LAW(model_vec, 20000) { model<th::vec<real>>(t); }

LAW(failures, 15000) {
	size_t n = t.n(3, 10), m = t.chance(2, 3) ? n : n - t.n(1, n - 1); bool same = t.coin(); ld c = t.i(-8, 8); std::vector<real> X(n), Y(m), W(t.chance(2, 3) ? n : n + 1, 1.0); for (auto& v : X) v = (real) (same ? c : (ld) t.i(-9, 9)); for (auto& v : Y) v = (real) t.r(-9, 9); bool flat = true; for (real v : X) if (v != X[0]) flat = false; NOTE(X); NOTE(Y); t.note("weights", W.size()); t.nontrivial(flat || m != n);
	bool bad = flat || m != n; int err; real A = 7, B = 7, sA = 7, sB = 7; th::mat2 C(7.0);
	with_errno(err, [&] { rg::ols_linear(X, Y, A, B); return 0; }); t.eq(err != 0, bad, "whether an ordinary fit is reported as impossible"); t.eq(std::isnan((double) A), bad, "NaN intercept"); t.eq(std::isnan((double) B), bad, "NaN slope");
	with_errno(err, [&] { rg::ols_linear(X, Y, 1.0, A, B, sA, sB); return 0; }); t.eq(err != 0, bad, "whether a fit with uncertainties is reported as impossible"); t.eq(std::isnan((double) A), bad, "NaN intercept"); t.eq(std::isnan((double) sA), bad, "NaN uncertainty"); t.eq(std::isnan((double) sB), bad, "NaN uncertainty");
	with_errno(err, [&] { rg::ols_linear(X, Y, 1.0, A, B, C); return 0; }); t.eq(err != 0, bad, "whether a fit with covariance is reported as impossible"); t.eq(std::isnan((double) B), bad, "NaN slope"); t.eq(std::isnan((double) C(0, 0)), bad, "NaN variance"); t.eq(std::isnan((double) C(1, 1)), bad, "NaN variance");
	bool badw = bad || W.size() != n; C = th::mat2(7.0); with_errno(err, [&] { rg::wls_linear(X, Y, W, A, B, C); return 0; }); t.eq(err != 0, badw, "whether a weighted fit is reported as impossible"); t.eq(std::isnan((double) A), badw, "NaN weighted intercept"); t.eq(std::isnan((double) C(0, 0)), badw, "NaN weighted variance");
	real so = 7; B = 7; with_errno(err, [&] { rg::wls_linear_orig(X, Y, W, B, so); return 0; }); bool zero = flat && X[0] == 0, bado = m != n || W.size() != n || zero; t.eq(err != 0, bado, "whether a weighted fit through the origin is reported as impossible"); t.eq(std::isnan((double) B), bado, "NaN slope through the origin"); t.eq(std::isnan((double) so), bado, "NaN uncertainty through the origin");
	if (m != n) { t.is_nan(with_errno(err, [&] { return rg::ols_linear_error(X, Y, 0, 0); }), "error of data of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return rg::ols_linear_slope(X, Y); }), "slope of data of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); t.is_nan(with_errno(err, [&] { return rg::ols_linear_intercept(X, Y); }), "intercept of data of unequal sizes"); t.check(err != 0, "unequal sizes are reported"); with_errno(err, [&] { rg::wls_linear(X, Y, 1.0, 1.0, A, B, C); return 0; }); t.check(err != 0, "unequal sizes are reported"); t.is_nan(A, "intercept of data of unequal sizes"); }
	std::vector<real> x2(t.n(0, 2)), y2(x2.size(), 1.0), s2(x2.size(), 1.0); for (auto& v : x2) v = (real) t.r(-9, 9); for (auto& v : y2) v = (real) t.r(-9, 9); for (int k = 0; k < 4; ++k) { rg::linear_model q; with_errno(err, [&] { if (k == 0) q.fit(x2, y2); else if (k == 1) q.fit(x2, y2, 1.0); else if (k == 2) q.fit(x2, y2, s2); else q.fit(x2, y2, 1.0, 1.0); return 0; }); t.check(err != 0, "a model of two points or fewer is reported"); t.is_nan(q.A, "model of two points or fewer"); t.is_nan(q.err, "model of two points or fewer"); }
}

// Propagation of uncertainties: any expression, against the gradient of a reference jet
template<typename F> static jets::J ref(const std::vector<real>& x, F f) { std::vector<jets::J> v; for (size_t i = 0; i < x.size(); ++i) v.push_back(jets::J::var(x[i], x.size(), i)); return f(v); }
struct Fn {
	int kind; real a, b;
	template<typename S, typename V> S go(const V& x, size_t n) const {
		using namespace th; using namespace jets; S r = x[0] * a;
		if (kind == 0) { for (size_t i = 0; i < n; ++i) r += x[i] * (a + b * (real) i); }
		else if (kind == 1) { S p = x[0]; for (size_t i = 1; i < n; ++i) p *= x[i]; r += p * b; }
		else if (kind == 2) { S q = x[0] * x[0]; for (size_t i = 1; i < n; ++i) q += x[i] * x[i]; r = sqrt(q + 1.0); }
		else if (kind == 3) { for (size_t i = 1; i < n; ++i) r = r / (x[i] * x[i] + 1.0); }
		else { for (size_t i = 0; i < n; ++i) r += sin(x[i] * b) * a; }
		return r;
	}
};
template<unsigned N> static th::vec<real, N> mk(const std::vector<real>& x) { th::vec<real, N> v; v.resize(x.size()); for (size_t i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
template<unsigned N> static void prop(T& t) {
	size_t n = N ? N : t.sz(1, 5, 14); Fn f{(int) t.i(0, 4), (real) t.rnz(0.1, 3), (real) t.r(-2, 2)}; std::vector<real> x(n), s(n); for (auto& v : x) v = (real) t.r(-3, 3); for (auto& v : s) v = (real) (t.chance(1, 6) ? 0 : t.rlog(-3, 1)); NOTE(f.kind); NOTE(f.a); NOTE(f.b); NOTE(x); NOTE(s); t.nontrivial(n > 1);
	jets::J j = ref(x, [&](const std::vector<jets::J>& v) { return f.template go<jets::J>(v, n); }); ld q = 0, G = 0; for (size_t i = 0; i < n; ++i) { q += j.g[i] * j.g[i] * s[i] * s[i]; G = std::max(G, fabsl(j.g[i])); }
	auto g = [&](th::autodiff::dvec_t<N> v) -> th::autodiff::dreal_t<N> { return f.template go<th::autodiff::dreal_t<N>>(v, n); };
	ld S = 0; for (real v : s) S += fabsl(v); int err; ld tol = 1e-12L * (1 + G) * S + 3e-7L * 0; real got = with_errno(err, [&] { return th::stats::error_propagation<N>(g, mk<N>(x), mk<N>(s)); }); t.check(err == 0, "propagating uncertainties reported an error"); t.close(got, sqrtl(q), tol, "propagated uncertainty");
	// A covariance matrix: C = L L^T
	std::vector<ld> Lm(n * n, 0), C(n * n, 0); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k <= i; ++k) Lm[i * n + k] = (real) t.r(-1, 1); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < n; ++l) C[i * n + k] += Lm[i * n + l] * Lm[k * n + l];
	th::mat<real, N, N> cm; cm.resize(n, n); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) cm(i, k) = (real) C[i * n + k]; ld v = 0, av = 0; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) { v += j.g[i] * j.g[k] * (real) C[i * n + k]; av += fabsl(j.g[i] * j.g[k] * C[i * n + k]); }
	if (v > 1e-4L * av && v > 1e-10L) { got = with_errno(err, [&] { return th::stats::error_propagation<N>(g, mk<N>(x), cm); }); t.check(err == 0, "propagating a covariance reported an error"); t.close(got, sqrtl(v), 1e-12L * (1 + G) * (1 + G) * n * n / sqrtl(v), "uncertainty propagated with covariances"); t.label("with covariances"); }
	th::mat<real, N, N> dg; dg.resize(n, n); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) dg(i, k) = i == k ? s[i] * s[i] : 0; got = th::stats::error_propagation<N>(g, mk<N>(x), dg); t.close(got, sqrtl(q), tol, "a diagonal covariance is the quadrature");
	if (N == 0) { th::mat<real> wr((unsigned) n + (t.coin() ? 1 : 0), (unsigned) n + 1); t.is_nan(with_errno(err, [&] { return th::stats::error_propagation<N>(g, mk<N>(x), wr); }), "propagation with a covariance of another size"); t.check(err != 0, "a covariance of another size is reported"); }
	// From data
	size_t m = t.n(2, 8); std::vector<std::vector<real>> D(n, std::vector<real>(m)); for (auto& r : D) for (auto& e : r) e = (real) t.r(-3, 3); std::vector<real> mean(n); std::vector<ld> mu(n, 0); for (size_t i = 0; i < n; ++i) { for (real e : D[i]) mu[i] += (ld) e / m; mean[i] = (real) mu[i]; }
	std::vector<ld> K(n * n, 0); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < m; ++l) K[i * n + k] += (D[i][l] - mu[i]) * (D[k][l] - mu[k]) / (m - 1); auto km = th::stats::covar_mat<th::mat<real, N, N>, std::vector<real>>(D); t.eq((size_t) km.rows(), n, "rows of the covariance"); t.eq((size_t) km.cols(), n, "columns of the covariance"); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) t.close(km(i, k), K[i * n + k], 1e-12L, "covariance of two data sets");
	jets::J jm = ref(mean, [&](const std::vector<jets::J>& v) { return f.template go<jets::J>(v, n); }); v = 0; av = 0; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) { v += jm.g[i] * jm.g[k] * K[i * n + k]; av += fabsl(jm.g[i] * jm.g[k] * K[i * n + k]); G = std::max(G, fabsl(jm.g[i])); }
	if (v > 1e-4L * av && v > 1e-6L) { t.label("from data"); got = with_errno(err, [&] { return th::stats::error_propagation<N>(g, D); }); t.check(err == 0, "propagating the uncertainties of data reported an error"); t.close(got, sqrtl(v), 1e-10L * (1 + G) * (1 + G) * n * n / sqrtl(v), "uncertainty propagated from data"); }
}
LAW(propagation_static, 15000) { prop<3>(t); }
LAW(propagation_static2, 8000) { prop<2>(t); }
LAW(propagation_dynamic, 15000) { prop<0>(t); }

// The same data in other units: powers of two change nothing but the exponents
template<typename V> static void units(T& t) {
	Data d = gen(t, true); size_t n = d.x.size(); L one(n, 1); Ref r0(d.x, d.y, one), r1(d.x, d.y, d.w); if (!(r0.cond < 1e6L && r1.cond < 1e6L)) t.discard(); int p = (int) t.i(-110, 110), q = (int) t.i(-110, 110), k = (int) t.i(0, 6); note(t, d); NOTE(p); NOTE(q); NOTE(k); t.nontrivial(p != 0 && q != 0);
	auto sc = [&](const L& v, int e) { L r(v); for (ld& a : r) a = ldexpl(a, e); return r; }; V X = Mk<V>::go(d.x), Y = Mk<V>::go(d.y), W = Mk<V>::go(d.w), S = Mk<V>::go(d.s), X2 = Mk<V>::go(sc(d.x, p)), Y2 = Mk<V>::go(sc(d.y, q)), W2 = Mk<V>::go(sc(d.w, -2 * q)), S2 = Mk<V>::go(sc(d.s, q));
	real s = (real) (t.rlog(-2, 2) * d.unity), sx = (real) (t.rlog(-2, 2) * d.unit); NOTE(s); NOTE(sx); real s2 = (real) ldexpl(s, q), sx2 = (real) ldexpl(sx, p); int err; auto is = [&](real v, real w, int e, const char* m) { t.approx(v, ldexpl(w, e), 1e-12L, 0, m); };
	real A = 7, B = 7, A2 = 7, B2 = 7, sA = 7, sB = 7, sA2 = 7, sB2 = 7; th::mat2 C(7.0), C2(7.0);
	auto both = [&](const char* m) { t.check(err == 0, std::string(m) + ": data in other units is refused"); is(A2, A, q, m); is(B2, B, q - p, m); }; auto cov = [&](const char* m) { is(C2(0, 0), C(0, 0), 2 * q, m); is(C2(1, 1), C(1, 1), 2 * (q - p), m); is(C2(0, 1), C(0, 1), 2 * q - p, m); is(C2(1, 0), C(1, 0), 2 * q - p, m); };
	if (k == 0) { rg::ols_linear(X, Y, A, B); with_errno(err, [&] { rg::ols_linear(X2, Y2, A2, B2); return 0; }); both("ordinary fit in other units"); is(rg::ols_linear_slope(X2, Y2), rg::ols_linear_slope(X, Y), q - p, "slope alone in other units"); is(rg::ols_linear_intercept(X2, Y2), rg::ols_linear_intercept(X, Y), q, "intercept alone in other units"); is(rg::ols_linear_sigma_A(X2, Y2, s2), rg::ols_linear_sigma_A(X, Y, s), q, "uncertainty in other units"); is(rg::ols_linear_sigma_B(X2, Y2, s2), rg::ols_linear_sigma_B(X, Y, s), q - p, "uncertainty in other units"); is(rg::ols_linear_error(X2, Y2, A2, B2), rg::ols_linear_error(X, Y, A, B), q, "error in other units"); }
	else if (k == 1) { rg::ols_linear(X, Y, s, A, B, sA, sB); with_errno(err, [&] { rg::ols_linear(X2, Y2, s2, A2, B2, sA2, sB2); return 0; }); both("fit with uncertainties in other units"); is(sA2, sA, q, "uncertainty of the intercept in other units"); is(sB2, sB, q - p, "uncertainty of the slope in other units"); rg::ols_linear(X, Y, s, A, B, C); with_errno(err, [&] { rg::ols_linear(X2, Y2, s2, A2, B2, C2); return 0; }); both("fit with covariance in other units"); cov("covariance in other units"); }
	else if (k == 2) { rg::wls_linear(X, Y, W, A, B, C); with_errno(err, [&] { rg::wls_linear(X2, Y2, W2, A2, B2, C2); return 0; }); both("weighted fit in other units"); cov("weighted covariance in other units"); is(rg::wls_linear_slope(X2, Y2, W2), rg::wls_linear_slope(X, Y, W), q - p, "weighted slope alone in other units"); is(rg::wls_linear_intercept(X2, Y2, W2), rg::wls_linear_intercept(X, Y, W), q, "weighted intercept alone in other units"); }
	else if (k == 3) { int e2 = (int) t.i(-60, 60); NOTE(e2); V W3 = Mk<V>::go(sc(d.w, e2)); rg::wls_linear(X, Y, W, A, B, C); with_errno(err, [&] { rg::wls_linear(X, Y, W3, A2, B2, C2); return 0; }); t.check(err == 0, "weights in other units are refused"); is(A2, A, 0, "intercept with weights in other units"); is(B2, B, 0, "slope with weights in other units"); is(C2(0, 0), C(0, 0), -e2, "covariance with weights in other units"); is(C2(1, 1), C(1, 1), -e2, "covariance with weights in other units"); }
	else if (k == 4) { rg::ols_linear_orig(X, Y, s, B, sB); with_errno(err, [&] { rg::ols_linear_orig(X2, Y2, s2, B2, sB2); return 0; }); t.check(err == 0, "a fit through the origin refuses data in other units"); is(B2, B, q - p, "slope through the origin in other units"); is(sB2, sB, q - p, "uncertainty through the origin in other units"); rg::wls_linear_orig(X, Y, W, B, sB); with_errno(err, [&] { rg::wls_linear_orig(X2, Y2, W2, B2, sB2); return 0; }); t.check(err == 0, "a weighted fit through the origin refuses data in other units"); is(B2, B, q - p, "weighted slope through the origin in other units"); is(sB2, sB, q - p, "weighted uncertainty through the origin in other units"); }
	else if (k == 5) { p /= 2; q /= 2; X2 = Mk<V>::go(sc(d.x, p)); Y2 = Mk<V>::go(sc(d.y, q)); s2 = (real) ldexpl(s, q); sx2 = (real) ldexpl(sx, p); rg::wls_linear(X, Y, sx, s, A, B, C); if (std::isnan((double) A)) return; with_errno(err, [&] { rg::wls_linear(X2, Y2, sx2, s2, A2, B2, C2); return 0; }); both("fit with errors on both coordinates in other units"); }
	else { int f = (int) t.i(0, 3); NOTE(f); if (f == 3) { p /= 2; q /= 2; X2 = Mk<V>::go(sc(d.x, p)); Y2 = Mk<V>::go(sc(d.y, q)); s2 = (real) ldexpl(s, q); sx2 = (real) ldexpl(sx, p); } rg::linear_model m, m2; auto fit = [&](rg::linear_model& u, const V& x, const V& y, const V& ss, real a, real b) { if (f == 0) u.fit(x, y); else if (f == 1) u.fit(x, y, a); else if (f == 2) u.fit(x, y, ss); else u.fit(x, y, b, a); }; fit(m, X, Y, S, s, sx); if (std::isnan((double) m.A)) return; with_errno(err, [&] { fit(m2, X2, Y2, S2, s2, sx2); return 0; }); A = m.A; B = m.B; A2 = m2.A; B2 = m2.B; both("model in other units"); is(m2.err, m.err, q, "error of the model in other units"); t.eq(m2.ndf, m.ndf, "degrees of freedom in other units"); if (f) { is(m2.chi_squared, m.chi_squared, 0, "chi squared in other units"); is(m2.p_value, m.p_value, 0, "p-value in other units"); } if (f == 1 || f == 2) { is(m2.sigma_A, m.sigma_A, q, "uncertainty of the model in other units"); is(m2.sigma_B, m.sigma_B, q - p, "uncertainty of the model in other units"); C = m.covar_mat; C2 = m2.covar_mat; cov("covariance of the model in other units"); } }
}
LAW(units_std, 30000) { units<std::vector<real>>(t); }
LAW(units_vec, 30000) { units<th::vec<real>>(t); }

// Each data set in turn has another size, shorter or longer
template<typename V> static void sizes(T& t) {
	size_t n = t.n(3, 12), m = t.coin() ? n + t.n(1, 4) : n - t.n(1, n - 1); int k = (int) t.i(0, 8), which = (int) t.i(0, 2); NOTE(n); NOTE(m); NOTE(k); NOTE(which); t.nontrivial(true); auto mk = [&](size_t c, ld lo, ld hi) { L v(c); for (ld& a : v) a = (real) t.r(lo, hi); return Mk<V>::go(v); };
	V X = mk(which == 0 ? m : n, -9, 9), Y = mk(which == 1 ? m : n, -9, 9), W = mk(which == 2 ? m : n, 0.5, 2); bool two = k == 0 || k == 1 || k == 2 || k == 5 || k == 7; if (which == 2 && two) t.discard(); int err; real A = 7, B = 7, sA = 7, sB = 7; th::mat2 C(7.0); auto nans = [&](std::initializer_list<real> l, const char* msg) { t.check(err != 0, std::string(msg) + ": unequal sizes are reported"); for (real v : l) t.is_nan(v, msg); };
	auto cm = [&] { t.is_nan(C(0, 0), "covariance of unequal sizes"); t.is_nan(C(1, 1), "covariance of unequal sizes"); };
	if (k == 0) { with_errno(err, [&] { rg::ols_linear(X, Y, A, B); return 0; }); nans({A, B}, "ols_linear"); }
	else if (k == 1) { with_errno(err, [&] { rg::ols_linear(X, Y, 1.0, A, B, sA, sB); return 0; }); nans({A, B, sA, sB}, "ols_linear with uncertainties"); }
	else if (k == 2) { with_errno(err, [&] { rg::ols_linear(X, Y, 1.0, A, B, C); return 0; }); nans({A, B}, "ols_linear with covariance"); cm(); C = th::mat2(7.0); A = B = 7; with_errno(err, [&] { rg::wls_linear(X, Y, 1.0, 1.0, A, B, C); return 0; }); nans({A, B}, "wls_linear with two uncertainties"); cm(); }
	else if (k == 3) { with_errno(err, [&] { rg::wls_linear(X, Y, W, A, B, C); return 0; }); nans({A, B}, "wls_linear"); cm(); }
	else if (k == 4) { with_errno(err, [&] { rg::wls_linear_orig(X, Y, W, B, sB); return 0; }); nans({B, sB}, "wls_linear_orig"); }
	else if (k == 5) { with_errno(err, [&] { rg::ols_linear_orig(X, Y, 1.0, B, sB); return 0; }); nans({B, sB}, "ols_linear_orig"); A = with_errno(err, [&] { return rg::ols_linear_intercept(X, Y); }); nans({A}, "ols_linear_intercept"); A = with_errno(err, [&] { return rg::ols_linear_slope(X, Y); }); nans({A}, "ols_linear_slope"); A = with_errno(err, [&] { return rg::ols_linear_error(X, Y, 1, 1); }); nans({A}, "ols_linear_error"); }
	else if (k == 6) { A = with_errno(err, [&] { return rg::wls_linear_intercept(X, Y, W); }); nans({A}, "wls_linear_intercept"); A = with_errno(err, [&] { return rg::wls_linear_slope(X, Y, W); }); nans({A}, "wls_linear_slope"); }
	else { rg::linear_model u; V g = mk(n, -9, 9), h = mk(n, -9, 9); if (t.coin()) u.fit(g, h, 1.0); int f = k == 8 ? 2 : (int) t.pick(std::vector<int>{0, 1, 3}); NOTE(f); with_errno(err, [&] { if (f == 0) u.fit(X, Y); else if (f == 1) u.fit(X, Y, 1.0); else if (f == 2) u.fit(X, Y, W); else u.fit(X, Y, 1.0, 1.0); return 0; }); nans({u.A, u.B, u.sigma_A, u.sigma_B, u.err, u.chi_squared, u.p_value}, "linear_model"); }
	real z = t.coin() ? 0.0 : -0.0; rg::linear_model e; V g = mk(n, -9, 9), h = mk(n, -9, 9); with_errno(err, [&] { e.fit(g, h, z); return 0; }); t.check(err != 0, "a null uncertainty is reported"); t.is_nan(e.A, "fit with a null uncertainty"); t.is_nan(e.B, "fit with a null uncertainty"); t.is_nan(e.chi_squared, "fit with a null uncertainty");
}
LAW(sizes_std, 15000) { sizes<std::vector<real>>(t); }
LAW(sizes_vec, 15000) { sizes<th::vec<real>>(t); }

// Abscissas which are all the same, whatever their value, have no line; nearly equal abscissas do
LAW(degenerate, 20000) {
	size_t n = t.n(3, 20); ld c = t.coin() ? (ld) t.i(-9, 9) : (ld) t.r(-50, 50) * (t.chance(1, 3) ? t.rlog(-12, 12) : 1); std::vector<real> X(n, (real) c), Y(n), W(n); for (auto& v : Y) v = (real) t.r(-9, 9); for (auto& v : W) v = (real) t.r(0.5, 2); NOTE(c); NOTE(n); NOTE(Y); t.nontrivial(true); int err; real A = 7, B = 7, sA = 7, sB = 7; th::mat2 C(7.0);
	auto bad = [&](const char* m) { t.check(err != 0, std::string(m) + " of equal abscissas is reported"); t.is_nan(A, m); t.is_nan(B, m); A = B = 7; };
	with_errno(err, [&] { rg::ols_linear(X, Y, A, B); return 0; }); bad("fit"); with_errno(err, [&] { rg::ols_linear(X, Y, 1.0, A, B, sA, sB); return 0; }); bad("fit with uncertainties"); t.is_nan(sA, "uncertainty of equal abscissas"); t.is_nan(sB, "uncertainty of equal abscissas"); with_errno(err, [&] { rg::ols_linear(X, Y, 1.0, A, B, C); return 0; }); bad("fit with covariance"); with_errno(err, [&] { rg::wls_linear(X, Y, W, A, B, C); return 0; }); bad("weighted fit");
	for (int f = 0; f < 3; ++f) { rg::linear_model m; with_errno(err, [&] { if (f == 0) m.fit(X, Y); else if (f == 1) m.fit(X, Y, 1.0); else m.fit(X, Y, W); return 0; }); A = m.A; B = m.B; bad("model"); t.is_nan(m.err, "error of a model of equal abscissas"); t.is_nan(m.chi_squared, "chi squared of a model of equal abscissas"); }
	// one of them moves away by a ten thousandth
	if (c != 0) { L x(n, (real) c), y(n), one(n, 1); size_t j = t.n(0, n - 1); x[j] = (real) (c * (1 + t.rlogs(-4, -1))); for (size_t i = 0; i < n; ++i) y[i] = Y[i]; X[j] = (real) x[j]; Ref r(x, y, one); with_errno(err, [&] { rg::ols_linear(X, Y, A, B); return 0; }); t.check(err == 0, "a fit of close abscissas reported an error"); t.close(A, r.A, r.tA, "intercept of close abscissas"); t.close(B, r.B, r.tB, "slope of close abscissas"); real sg = (real) t.rnz(0.1, 3); NOTE(sg); ld as = fabsl(sg), vs = as * sqrtl(r.vA), vb = as * sqrtl(r.vB);
		with_errno(err, [&] { rg::ols_linear(X, Y, sg, A, B, sA, sB); return 0; }); t.check(err == 0, "a fit of close abscissas with uncertainties reported an error"); t.close(A, r.A, r.tA, "intercept of close abscissas"); t.close(B, r.B, r.tB, "slope of close abscissas"); t.close(sA, vs, vs * r.tv, "uncertainty of close abscissas"); t.close(sB, vb, vb * r.tv, "uncertainty of close abscissas"); t.close(rg::ols_linear_sigma_A(X, Y, sg), vs, vs * r.tv, "uncertainty of the intercept alone"); t.close(rg::ols_linear_sigma_B(X, Y, sg), vb, vb * r.tv, "uncertainty of the slope alone");
		with_errno(err, [&] { rg::ols_linear(X, Y, sg, A, B, C); return 0; }); t.check(err == 0, "a fit of close abscissas with covariance reported an error"); t.close(A, r.A, r.tA, "intercept of close abscissas"); t.close(B, r.B, r.tB, "slope of close abscissas"); covar<std::vector<real>>(t, C, r, as * as);
		L w(n); for (size_t i = 0; i < n; ++i) w[i] = W[i]; Ref rw(x, y, w); with_errno(err, [&] { rg::wls_linear(X, Y, W, A, B, C); return 0; }); t.check(err == 0, "a weighted fit of close abscissas reported an error"); t.close(A, rw.A, rw.tA, "weighted intercept of close abscissas"); t.close(B, rw.B, rw.tB, "weighted slope of close abscissas"); covar<std::vector<real>>(t, C, rw, 1);
		rg::linear_model m(X, Y, sg); t.close(m.sigma_A, vs, vs * r.tv * 2, "uncertainty of a model of close abscissas"); t.close(m.sigma_B, vb, vb * r.tv * 2, "uncertainty of a model of close abscissas"); }
}

// The propagated uncertainty is proportional to the uncertainties
template<unsigned N> static void propunits(T& t) {
	size_t n = N ? N : t.n(1, 9); Fn f{(int) t.i(0, 4), (real) t.rnz(0.1, 3), (real) t.r(-2, 2)}; int p = (int) t.i(-150, 150); std::vector<real> x(n), s(n), s2(n); for (auto& v : x) v = (real) (t.chance(1, 8) ? 0 : t.r(-3, 3)); for (size_t i = 0; i < n; ++i) { s[i] = (real) t.rlog(-3, 1); s2[i] = (real) ldexpl(s[i], p); } NOTE(f.kind); NOTE(f.a); NOTE(f.b); NOTE(x); NOTE(s); NOTE(p); t.nontrivial(p != 0);
	auto g = [&](th::autodiff::dvec_t<N> v) -> th::autodiff::dreal_t<N> { return f.template go<th::autodiff::dreal_t<N>>(v, n); }; t.approx(th::stats::error_propagation<N>(g, mk<N>(x), mk<N>(s2)), ldexpl(th::stats::error_propagation<N>(g, mk<N>(x), mk<N>(s)), p), 1e-12L, 0, "uncertainty in other units");
	th::mat<real, N, N> c, c2; c.resize(n, n); c2.resize(n, n); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) { c(i, k) = i == k ? (real) (s[i] * s[i]) : 0; c2(i, k) = (real) ldexpl(c(i, k), 2 * p); } t.approx(th::stats::error_propagation<N>(g, mk<N>(x), c2), ldexpl(th::stats::error_propagation<N>(g, mk<N>(x), c), p), 1e-12L, 0, "uncertainty from covariances in other units");
	size_t m = t.n(2, 8); std::vector<std::vector<real>> D(n, std::vector<real>(m)), D2; for (auto& r : D) for (auto& e : r) e = (real) t.r(-3, 3); D2 = D; for (auto& r : D2) for (auto& e : r) e = (real) ldexpl(e, p); auto K = th::stats::covar_mat<th::mat<real, N, N>, std::vector<real>>(D), K2 = th::stats::covar_mat<th::mat<real, N, N>, std::vector<real>>(D2); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) t.approx(K2(i, k), ldexpl(K(i, k), 2 * p), 1e-14L, 0, "covariance of data in other units");
	// a linear combination: the uncertainty of the data does not depend on its origin
	Fn l{0, f.a, f.b}; auto h = [&](th::autodiff::dvec_t<N> v) -> th::autodiff::dreal_t<N> { return l.template go<th::autodiff::dreal_t<N>>(v, n); }; real e1 = th::stats::error_propagation<N>(h, D), e2 = th::stats::error_propagation<N>(h, D2); ld q = 0, a = 0; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) { ld gi = f.a + f.b * (ld) i + (i == 0 ? f.a : 0), gk = f.a + f.b * (ld) k + (k == 0 ? f.a : 0); q += gi * gk * K(i, k); a += fabsl(gi * gk * K(i, k)); } if (q > 1e-4L * a) { t.approx(e1, sqrtl(q), 1e-9L, 0, "uncertainty of a linear combination"); t.approx(e2, ldexpl(e1, p), 1e-12L, 0, "uncertainty of data in other units"); }
}
LAW(propagation_units_static, 12000) { propunits<4>(t); }
LAW(propagation_units_dynamic, 12000) { propunits<0>(t); }

// Hundreds and thousands of points
template<typename V> static void lots(T& t) {
	size_t n = t.n(200, 6000); V X = V(), Y = V(), S = V(); X.resize(n); Y.resize(n); S.resize(n); real A = (real) t.r(-5, 5), B = (real) t.rnz(0.1, 5), sy = (real) t.rlog(-2, 1); uint64_t s = t.u64() | 1; auto next = [&] { s = s * 6364136223846793005ull + 1442695040888963407ull; return (ld) (s >> 11) / 9007199254740992.0L; }; for (size_t i = 0; i < n; ++i) { X[i] = (real) (4 * next() - 1); Y[i] = (real) (A + B * X[i] + sy * (next() + next() + next() - 1.5L) * 2); S[i] = (real) (sy * (0.5L + next())); } NOTE(n); NOTE(A); NOTE(B); NOTE(sy); t.nontrivial();
	auto fit = [&](bool w, ld& a, ld& b, ld& sa, ld& sb, ld& chi) { ld W = 0, mx = 0, my = 0, xx = 0, xy = 0; auto wt = [&](size_t i) { return w ? 1 / ((ld) S[i] * S[i]) : 1 / ((ld) sy * sy); }; for (size_t i = 0; i < n; ++i) { W += wt(i); mx += wt(i) * X[i]; my += wt(i) * Y[i]; } mx /= W; my /= W; for (size_t i = 0; i < n; ++i) { ld d = X[i] - mx; xx += wt(i) * d * d; xy += wt(i) * d * (Y[i] - my); } b = xy / xx; a = my - b * mx; sb = sqrtl(1 / xx); sa = sqrtl(1 / W + mx * mx / xx); chi = 0; for (size_t i = 0; i < n; ++i) { ld r = Y[i] - a - b * X[i]; chi += wt(i) * r * r; } };
	for (int w = 0; w < 2; ++w) { ld a, b, sa, sb, chi; fit(w, a, b, sa, sb, chi); int err; rg::linear_model m = with_errno(err, [&] { return w ? rg::linear_model(X, Y, S) : rg::linear_model(X, Y, sy); }); t.check(err == 0, "a fit of many points reported an error"); ld e = 1e-9L; t.close(m.A, a, e * (1 + fabsl(a)), "intercept with many points"); t.close(m.B, b, e * (1 + fabsl(b)), "slope with many points"); t.approx(m.sigma_A, sa, e, 0, "uncertainty of the intercept with many points"); t.approx(m.sigma_B, sb, e, 0, "uncertainty of the slope with many points"); t.approx(m.chi_squared, chi, e, 0, "chi squared with many points"); t.eq((size_t) m.ndf, n - 2, "degrees of freedom with many points"); ld z = (chi - (n - 2)) / sqrtl(2.0L * (n - 2)); if (n - 2 >= 260) t.close(m.p_value, erfcl(z / sqrtl(2)) / 2, 1e-7L, "p-value with many points"); }
}
LAW(many_points_std, 200) { lots<std::vector<real>>(t); }
LAW(many_points_vec, 200) { lots<th::vec<real>>(t); }
