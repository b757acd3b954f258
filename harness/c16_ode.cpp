// C16: solvers of ordinary differential equations
#include "linref.hpp"
using namespace pbt;
namespace ode = th::ode;
typedef std::vector<ld> V;

// A random vector field x_i' = sum_j A_ij x_j + b_i + c_i t + e_i sin(x_k) + q_i x_k x_l
struct Field {
	int n; std::vector<ld> A, b, c, e, q; std::vector<int> k, l;
	V operator()(ld t, const V& x) const {
		V r(n);
		for (int i = 0; i < n; ++i) {
			ld s = b[i] + c[i] * t + e[i] * sinl(x[k[i]]) + q[i] * x[k[i]] * x[l[i]];
			for (int j = 0; j < n; ++j) s += A[i * n + j] * x[j];
			r[i] = s;
		}
		return r;
	}
};
static Field gen_field(T& t, int n) {
	Field f; f.n = n;
	auto c = [&] { return t.chance(1, 3) ? 0.0L : (ld) (real) t.r(-1.5, 1.5); };
	for (int i = 0; i < n * n; ++i) f.A.push_back(c());
	for (int i = 0; i < n; ++i) { f.b.push_back(c()); f.c.push_back(c()); f.e.push_back(c()); f.q.push_back(c() / 2); f.k.push_back((int) t.i(0, n - 1)); f.l.push_back((int) t.i(0, n - 1)); }
	return f;
}
static V operator+(V a, const V& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
static V operator*(ld k, V a) { for (auto& v : a) v *= k; return a; }

// Runge-Kutta methods by their tableaux
struct Tableau { std::vector<std::vector<ld>> a; V b, c; };
static const Tableau EULER = {{{}}, {1}, {0}};
static const Tableau MIDPOINT = {{{}, {0.5L}}, {0, 1}, {0, 0.5L}};
static const Tableau HEUN = {{{}, {1}}, {0.5L, 0.5L}, {0, 1}};
static const Tableau RK4 = {{{}, {0.5L}, {0, 0.5L}, {0, 0, 1}}, {1 / 6.0L, 1 / 3.0L, 1 / 3.0L, 1 / 6.0L}, {0, 0.5L, 0.5L, 1}};
static const Tableau K38 = {{{}, {1 / 3.0L}, {-1 / 3.0L, 1}, {1, -1, 1}}, {1 / 8.0L, 3 / 8.0L, 3 / 8.0L, 1 / 8.0L}, {0, 1 / 3.0L, 2 / 3.0L, 1}};
template<typename F> static V rk(const Tableau& T, const F& f, const V& x, ld t, ld h) {
	std::vector<V> k;
	for (size_t s = 0; s < T.b.size(); ++s) { V y = x; for (size_t j = 0; j < T.a[s].size(); ++j) y = y + (h * T.a[s][j]) * k[j]; k.push_back(f(t + T.c[s] * h, y)); }
	V r = x; for (size_t s = 0; s < T.b.size(); ++s) r = r + (h * T.b[s]) * k[s];
	return r;
}
static const Tableau& tab(int m) { return m == 0 ? EULER : m == 1 ? MIDPOINT : m == 2 ? HEUN : m == 3 ? MIDPOINT : m == 4 ? RK4 : K38; }
static const char* const NAME[] = {"Euler's method", "the midpoint method", "Heun's method", "the second order Runge-Kutta method", "the fourth order Runge-Kutta method", "Kutta's 3/8 rule"};

// Conversions between the reference and the library vectors
static void put(real& x, const V& v) { x = (real) v[0]; }
static void put(th::vec<real>& x, const V& v) { x.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = (real) v[i]; }
template<unsigned N> static void put(th::vec<real, N>& x, const V& v) { for (size_t i = 0; i < N; ++i) x[i] = (real) v[i]; }
static V get(const real& x) { return {x}; }
template<unsigned N> static V get(const th::vec<real, N>& x) { V v; for (size_t i = 0; i < x.size(); ++i) v.push_back(x[i]); return v; }
static V gen_x(T& t, int n) { V x(n); for (auto& v : x) v = (real) t.r(-2, 2); return x; }

template<typename X, typename F> static X lib_step(int m, const F& f, const X& x, real t, real h) {
	switch (m) {
	case 0: return ode::step_euler(f, x, t, h); case 1: return ode::step_midpoint(f, x, t, h); case 2: return ode::step_heun(f, x, t, h);
	case 3: return ode::step_rk2(f, x, t, h); case 4: return ode::step_rk4(f, x, t, h); default: return ode::step_k38(f, x, t, h);
	}
}
template<typename X, typename F> static ode::ode_solution_t<X> lib_solve(int m, const F& f, const X& x, real t0, real tf, real h) {
	switch (m) {
	case 0: return ode::solve_euler(f, x, t0, tf, h); case 1: return ode::solve_midpoint(f, x, t0, tf, h); case 2: return ode::solve_heun(f, x, t0, tf, h);
	case 3: return ode::solve_rk2(f, x, t0, tf, h); case 4: return ode::solve_rk4(f, x, t0, tf, h); default: return ode::solve_k38(f, x, t0, tf, h);
	}
}
static void same(T& t, const V& g, const V& w, ld tol, const std::string& m) {
	t.eq(g.size(), w.size(), "dimension of the state");
	ld s = 1; for (ld v : w) s = std::max(s, fabsl(v));
	for (size_t i = 0; i < w.size(); ++i) t.close(g[i], w[i], tol * s, m + ", component " + std::to_string(i));
}

template<typename X> static void steps(T& t, int n) {
	Field f = gen_field(t, n); V x = gen_x(t, n); real tt = (real) t.r(-2, 2), h = (real) (t.chance(1, 6) ? t.r(-0.3, 0) : t.rlog(-4, -0.3));
	int m = (int) t.i(0, 5); NOTE(n); NOTE(m); NOTE(tt); NOTE(h); t.nontrivial(n > 1); t.label(NAME[m]);
	X lx; put(lx, x); X keep = lx;
	auto lf = [&](real s, const X& y) { X r; put(r, f(s, get(y))); return r; };
	same(t, get(lib_step(m, lf, lx, tt, h)), rk(tab(m), f, x, tt, h), 1e-12, std::string("step of ") + NAME[m]);
	same(t, get(lx), get(keep), 0, "initial state");
	// Adams-Bashforth methods, with the previous states given
	V x1 = gen_x(t, n), x2 = gen_x(t, n); X l1, l2; put(l1, x1); put(l2, x2);
	real t1 = t.coin() ? tt + h : (real) t.r(-2, 2), t2 = t.coin() ? tt + 2 * h : (real) t.r(-2, 2); NOTE(t1); NOTE(t2); // the times are those given
	V w = x1 + h * (1.5L * f(t1, x1) + -0.5L * f(tt, x));
	same(t, get(ode::step_adams2(lf, lx, tt, l1, t1, h)), w, 1e-12, "two-step Adams-Bashforth method");
	w = x2 + (h / 12.0L) * (23.0L * f(t2, x2) + -16.0L * f(t1, x1) + 5.0L * f(tt, x));
	same(t, get(ode::step_adams3(lf, lx, tt, l1, t1, l2, t2, h)), w, 1e-12, "three-step Adams-Bashforth method");
}
LAW(single_steps_scalar, 30000) { steps<real>(t, 1); }
LAW(single_steps_fixed, 30000) { if (t.coin()) steps<th::vec<real, 2>>(t, 2); else steps<th::vec<real, 4>>(t, 4); }
LAW(single_steps_dynamic, 30000) { steps<th::vec<real>>(t, (int) t.sz(1, 5, 20)); }

template<typename X> static void solves(T& t, int n) {
	Field f = gen_field(t, n); for (auto& v : f.q) v = 0; // at most linear growth
	V x = gen_x(t, n); int m = (int) t.i(0, 5);
	real h = t.coin() ? (real) t.r(0.01, 0.3) : t.pick(std::vector<real>{0.1, 0.125, 0.25, 0.05, 0.3}), t0 = t.chance(1, 3) ? 0 : (real) t.r(-3, 3);
	// an exact number of steps as often as a fractional one, or an interval shorter than a step
	int how = (int) t.i(0, 2), cnt = (int) t.sz(1, 25, 400); real tf = how == 0 ? t0 + cnt * h : how == 1 ? t0 + (real) ((cnt + (t.chance(1, 3) ? (t.coin() ? t.rlog(-7, -2) : 1 - t.rlog(-7, -2)) : t.r(0.05, 0.95))) * h) : t0 + (real) (t.r(0.05, 0.95) * h);
	NOTE(n); NOTE(m); NOTE(t0); NOTE(tf); NOTE(h); t.nontrivial(n > 1 && cnt > 1); t.label(NAME[m]); t.label(how == 0 ? "whole steps" : how == 1 ? "last step shorter" : "shorter than a step");
	X lx; put(lx, x);
	auto lf = [&](real s, const X& y) { X r; put(r, f(s, get(y))); return r; };
	int err; auto sol = with_errno(err, [&] { return lib_solve(m, lf, lx, t0, tf, h); });
	t.check(err == 0, "a valid interval reported an error");
	t.eq((size_t) sol.t.size(), (size_t) sol.x.size(), "number of times and of states");
	size_t N = sol.t.size(); t.check(N >= 2, "at least the two ends are returned");
	t.check(sol.t[0] == t0, "the solution starts at the initial time"); same(t, get(sol.x[0]), x, 0, "initial state");
	t.close(sol.t[N - 1], tf, 1e-12 * (1 + fabsl(tf)), "the solution ends at the final time");
	// with a rounded quotient the last step may be next to zero or next to a whole one
	long want = how == 0 ? cnt + 1 : how == 1 ? cnt + 2 : 2;
	t.check(std::labs((long) N - want) <= (how == 0 ? 1 : 0), "number of points: got " + std::to_string(N) + ", expected " + std::to_string(want));
	V y = x;
	for (size_t i = 1; i < N; ++i) {
		ld dt = (ld) sol.t[i] - sol.t[i - 1];
		if (i + 1 < N) t.close(dt, h, 1e-12, "distance between times"); else t.check(dt <= h * (1 + 1e-9) && dt >= -1e-12, "last step is at most a whole one");
		if (i > 25) y = get(sol.x[i - 1]); // far from the start each step is judged by itself
		y = rk(tab(m), f, y, sol.t[i - 1], dt);
		same(t, get(sol.x[i]), y, 1e-11, std::string("solution by ") + NAME[m] + " at point " + std::to_string(i));
	}
}
LAW(trajectories_scalar, 8000) { solves<real>(t, 1); }
LAW(trajectories_fixed, 8000) { if (t.coin()) solves<th::vec<real, 2>>(t, 2); else solves<th::vec<real, 3>>(t, 3); }
LAW(trajectories_dynamic, 8000) { solves<th::vec<real>>(t, (int) t.sz(1, 4, 12)); }

LAW(convergence_to_the_exact_solution, 6000) {
	// damped and forced oscillator with known solution x = e^-gt cos(wt) + k t
	ld g = t.r(0, 1), w = t.r(0.3, 2), k = t.r(-1, 1), t0 = t.r(-1, 1), T_ = t.r(0.5, 2); int m = (int) t.i(0, 5);
	NOTE((double) g); NOTE((double) w); NOTE((double) k); NOTE((double) t0); NOTE((double) T_); NOTE(m); t.nontrivial(); t.label(NAME[m]);
	auto ex = [&](ld s) { return V{expl(-g * s) * cosl(w * s) + k * s, expl(-g * s) * (-g * cosl(w * s) - w * sinl(w * s)) + k}; };
	auto f = [&](real s, const th::vec<real, 2>& y) { ld u = y[0] - k * s, v = y[1] - k; return th::vec<real, 2>({y[1], (real) (-2 * g * v - (g * g + w * w) * u)}); };
	th::vec<real, 2> x; put(x, ex(t0)); real tf = (real) (t0 + T_);
	static const int order[] = {1, 2, 2, 2, 4, 4};
	static const real hs[] = {0.002, 0.01, 0.01, 0.01, 0.04, 0.04};
	real h = hs[m];
	auto sol = lib_solve(m, f, x, (real) t0, tf, h); V got = get(sol.x[sol.x.size() - 1]), want = ex(tf);
	// constants of the problem: norm of the matrix below 7, derivatives bounded by e^|t0| (1 + g + w)^(p + 1)
	ld C = 4 * T_ * expl(2 * T_) * powl(1.5L * (g + w) + 0.5L, order[m] + 1) * expl(g) * (1 + fabsl(k));
	for (int i = 0; i < 2; ++i) t.close(got[i], want[i], C * powl(h, order[m]) + 1e-10, std::string("solution by ") + NAME[m]);
}

LAW(linearity, 6000) {
	// the flow of a homogeneous linear field is a linear map
	int n = (int) t.n(1, 4), m = (int) t.i(0, 5); Field f = gen_field(t, n); for (auto* z : {&f.b, &f.c, &f.e, &f.q}) for (auto& v : *z) v = 0;
	V a = gen_x(t, n), b = gen_x(t, n); real u = (real) t.r(-2, 2), v = (real) t.r(-2, 2), tf = (real) t.r(0.1, 1.5); NOTE(n); NOTE(m); NOTE(u); NOTE(v); NOTE(tf); t.nontrivial(n > 1);
	typedef th::vec<real> X; auto lf = [&](real s, const X& y) { X r; put(r, f(s, get(y))); return r; };
	auto end = [&](const V& x) { X l; put(l, x); auto s = lib_solve(m, lf, l, (real) 0, tf, (real) 0.05); return get(s.x[s.x.size() - 1]); };
	V p = end(a), q = end(b), w = (ld) u * p + (ld) v * q; V c = (ld) u * a + (ld) v * b; ld sc = 1; for (ld z : w) sc = std::max(sc, fabsl(z)); for (ld z : p) sc = std::max(sc, fabsl(z)); for (ld z : q) sc = std::max(sc, fabsl(z));
	V g = end(c); for (int i = 0; i < n; ++i) t.close(g[i], w[i], 1e-12 * sc * 8, "linear combination of solutions");
}

LAW(reversed_interval, 2000) {
	int m = (int) t.i(0, 5); real t0 = (real) t.r(-2, 2), tf = t0 - (real) t.r(0.01, 3); NOTE(m); NOTE(t0); NOTE(tf); t.nontrivial();
	typedef th::vec<real> X; X x({1, 2}); int err;
	auto lf = [](real, const X& y) { return y; };
	auto s = with_errno(err, [&] { return lib_solve(m, lf, x, t0, tf, (real) 0.1); });
	t.check(err != 0, "an interval with exchanged ends is reported");
	for (size_t i = 0; i < s.t.size(); ++i) t.is_nan(s.t[i], "times of an invalid solution");
}

// The unit of time is arbitrary: a slowed down system follows the same states; states of linear systems scale
LAW(units, 12000) {
	int n = (int) t.n(1, 4), m = (int) t.i(0, 5); Field f = gen_field(t, n); bool lin = t.coin(); if (lin) for (auto* z : {&f.b, &f.c, &f.e, &f.q}) for (auto& v : *z) v = 0; for (auto& v : f.q) v = 0; V x = gen_x(t, n); const real u = std::ldexp(1.0, (int) t.i(-70, 70)), c = lin ? std::ldexp(1.0, (int) t.i(-40, 40)) : 1; real h = (real) t.r(0.01, 0.3), t0 = t.chance(1, 3) ? 0 : (real) t.r(-3, 3), tf = t.chance(1, 10) ? t0 : t0 + (real) (t.r(0.1, 12) * h); NOTE(n); NOTE(m); NOTE(u); NOTE(c); NOTE(t0); NOTE(tf); NOTE(h); t.nontrivial(u != 1); t.label(NAME[m]); t.label_if(t0 == tf, "empty interval");
	typedef th::vec<real> X; X a, b; put(a, x); put(b, (ld) c * x); auto lf = [&](real s, const X& y) { X r; put(r, f(s, get(y))); return r; }; auto lg = [&](real s, const X& y) { X r; put(r, ((ld) c / u) * f(s / u, (1 / (ld) c) * get(y))); return r; };
	int err; auto p = lib_solve(m, lf, a, t0, tf, h), q = with_errno(err, [&] { return lib_solve(m, lg, b, t0 * u, tf * u, h * u); }); t.check(err == 0, "a valid interval reported an error"); t.eq(q.t.size(), p.t.size(), "number of points in other units"); t.check(q.t.size() >= 1, "at least the initial point"); size_t N = q.t.size(); t.close((ld) q.t[N - 1] / u, tf, 1e-12L * (1 + fabsl(tf)), "final time in other units"); for (size_t i = 0; i < N && i < p.t.size(); ++i) { t.close((ld) q.t[i] / u, p.t[i], 1e-14L * (1 + fabsl(tf) + fabsl(t0)), "times in other units"); same(t, (1 / (ld) c) * get(q.x[i]), get(p.x[i]), 1e-12, "states in other units"); }
}

// Default steps, and the generic solver with any step function
LAW(defaults_and_generic, 400) {
	int n = 2; Field f = gen_field(t, n); for (auto& v : f.q) v = 0; V x = gen_x(t, n); typedef th::vec<real> X; X lx; put(lx, x); real t0 = (real) t.r(-2, 2), T_ = (real) t.r(0.001, 0.05), tf = t0 + T_; NOTE(t0); NOTE(tf); t.nontrivial(); auto lf = [&](real s, const X& y) { X r; put(r, f(s, get(y))); return r; };
	ode::ode_function<X> fn = lf; std::vector<ode::ode_solution> s = {ode::solve_euler(fn, lx, t0, tf), ode::solve_midpoint(fn, lx, t0, tf), ode::solve_heun(fn, lx, t0, tf), ode::solve_rk2(fn, lx, t0, tf), ode::solve_rk4(fn, lx, t0, tf), ode::solve_k38(fn, lx, t0, tf)};
	V ref = x; int K = 200; for (int i = 0; i < K; ++i) ref = rk(RK4, f, ref, t0 + (ld) T_ * i / K, (ld) T_ / K); ld top = 1; for (ld v : f(t0, x)) top = std::max(top, fabsl(v)); for (int m = 0; m < 6; ++m) { size_t N = s[m].t.size(); t.close(s[m].t[N - 1], tf, 1e-12L * (1 + fabsl(tf)), std::string("final time by ") + NAME[m]); same(t, get(s[m].x[N - 1]), ref, 1e-4L * top, std::string("default step of ") + NAME[m]); }
	real h = (real) t.r(0.001, 0.02); NOTE(h); int calls = 0; std::vector<real> ts; auto st = [&](ode::ode_function<X> g, const X& y, real tt, real hh) { ++calls; ts.push_back(tt); t.check(hh <= h * (1 + 1e-9) && hh > -1e-12, "length of a step"); return ode::step_heun(g, y, tt, hh); }; auto g = ode::solve_fixstep(fn, lx, t0, tf, st, h); auto w = ode::solve_heun(fn, lx, t0, tf, h); t.eq(g.t.size(), w.t.size(), "number of points of the generic solver"); t.eq((size_t) calls + 1, (size_t) g.t.size(), "number of steps"); for (size_t i = 0; i < g.t.size() && i < w.t.size(); ++i) { t.eq((double) g.t[i], (double) w.t[i], "times of the generic solver"); same(t, get(g.x[i]), get(w.x[i]), 1e-14, "states of the generic solver"); if (i + 1 < g.t.size()) t.eq((double) ts[i], (double) g.t[i], "each step starts at its time"); }
}

// Solvers may be used inside the vector field of another solver; the default step of RK4 keeps its accuracy
LAW(nested_and_default, 3000) {
	int n = (int) t.n(1, 3), m = (int) t.i(0, 5), k = (int) t.i(0, 5); Field f = gen_field(t, n), g = gen_field(t, n); for (auto& v : f.q) v = 0; for (auto& v : g.q) v = 0; V x = gen_x(t, n); real tt = (real) t.r(-2, 2), h = (real) t.r(0.01, 0.3); NOTE(n); NOTE(m); NOTE(k); NOTE(tt); NOTE(h); t.nontrivial(); typedef th::vec<real> X; X lx; put(lx, x);
	ode::ode_function<X> lg = [&](real s, const X& y) { X r; put(r, g(s, get(y))); return r; }, lf = [&](real s, const X& y) { X in = lib_step(k, lg, y, s, (real) 0.1); X r; put(r, f(s, get(in))); return r; }; auto rf = [&](ld s, const V& y) { return f(s, rk(tab(k), g, y, s, 0.1L)); };
	same(t, get(lib_step(m, lf, lx, tt, h)), rk(tab(m), rf, x, tt, h), 1e-11, std::string("nested steps of ") + NAME[m]);
	if (t.chance(1, 10)) { auto l = [&](real s, const X& y) { X r; put(r, f(s, get(y))); return r; }; real T_ = (real) t.r(0.2, 1), tf = tt + T_; auto s = ode::solve_rk4(ode::ode_function<X>(l), lx, tt, tf); V ref = x; int K = 400; for (int i = 0; i < K; ++i) ref = rk(RK4, f, ref, tt + (ld) T_ * i / K, (ld) T_ / K); same(t, get(s.x[s.x.size() - 1]), ref, 1e-5, "default step of the fourth order Runge-Kutta method"); }
}

// Tens of thousands of steps: the grid of times and the states keep to the exact ones
LAW(long_runs, 60) {
	int m = (int) t.i(0, 5); size_t cnt = t.n(15000, 80000); real h = (real) t.rlog(-4, -2.5), t0 = (real) t.r(-2, 2), tf = t0 + (real) ((cnt + t.r(0.1, 0.9)) * h); ld w = t.r(0.2, 2); NOTE(m); NOTE(cnt); NOTE(h); NOTE(t0); NOTE(tf); NOTE((double) w); t.nontrivial(); t.label(NAME[m]);
	auto lf = [&](real s, const real& y) { return (real) (-w * (y - s) + 1); }; int err; auto s = with_errno(err, [&] { return lib_solve(m, lf, (real) (t0 + 1), t0, tf, h); }); t.check(err == 0, "a long interval reported an error"); t.eq((size_t) s.t.size(), cnt + 2, "number of points of a long run"); t.eq((size_t) s.x.size(), cnt + 2, "number of states of a long run"); size_t N = s.t.size(); if (N != cnt + 2) return;
	static const int order[] = {1, 2, 2, 2, 4, 4}; ld e = 2 * powl(w * h, order[m]) + 1e-9L; for (int k = 0; k < 200; ++k) { size_t i = k == 0 ? N - 1 : k == 1 ? N - 2 : t.n(1, N - 2); ld want = i == N - 1 ? (ld) tf : t0 + (ld) h * i; t.close(s.t[i], want, 1e-10L * (1 + fabsl(tf)), "time of a long run"); t.close(s.x[i], want + expl(-w * (want - t0)), e * (1 + fabsl(w)), std::string("state of a long run by ") + NAME[m]); }
}
