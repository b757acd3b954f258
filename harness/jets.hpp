// Reference second order jets in n variables, and random expression programs
#ifndef VERIF_JETS_HPP
#define VERIF_JETS_HPP
#include "linref.hpp"
namespace jets {
struct J {
	ld v = 0; std::vector<ld> g, h; // value, gradient, hessian (row-major)
	J() {}
	J(ld c, size_t n) : v(c), g(n, 0), h(n * n, 0) {}
	static J var(ld c, size_t n, size_t i) { J j(c, n); j.g[i] = 1; return j; }
	ld size() const { ld m = fabsl(v); for (ld x : g) m = std::max(m, fabsl(x)); for (ld x : h) m = std::max(m, fabsl(x)); return m; }
};
inline J chain(const J& x, ld f, ld f1, ld f2) {
	size_t n = x.g.size(); J r(f, n);
	for (size_t i = 0; i < n; ++i) { r.g[i] = f1 * x.g[i]; for (size_t k = 0; k < n; ++k) r.h[i * n + k] = f1 * x.h[i * n + k] + f2 * x.g[i] * x.g[k]; }
	return r;
}
inline J operator+(J a, const J& b) { a.v += b.v; for (size_t i = 0; i < a.g.size(); ++i) a.g[i] += b.g[i]; for (size_t i = 0; i < a.h.size(); ++i) a.h[i] += b.h[i]; return a; }
inline J operator*(const J& a, ld k) { return chain(a, a.v * k, k, 0); }
inline J operator*(ld k, const J& a) { return a * k; }
inline J operator-(const J& a) { return a * -1.0L; }
inline J operator-(const J& a, const J& b) { return a + (-b); }
inline J operator+(const J& a, ld k) { J r = a; r.v += k; return r; }
inline J operator+(ld k, const J& a) { return a + k; }
inline J operator-(const J& a, ld k) { return a + (-k); }
inline J operator-(ld k, const J& a) { return (-a) + k; }
inline J operator*(const J& a, const J& b) {
	size_t n = a.g.size(); J r(a.v * b.v, n);
	for (size_t i = 0; i < n; ++i) { r.g[i] = a.v * b.g[i] + b.v * a.g[i]; for (size_t k = 0; k < n; ++k) r.h[i * n + k] = a.v * b.h[i * n + k] + a.g[i] * b.g[k] + b.g[i] * a.g[k] + b.v * a.h[i * n + k]; }
	return r;
}
inline J inv(const J& a) { return chain(a, 1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v)); }
inline J operator/(const J& a, const J& b) { return a * inv(b); }
inline J operator/(const J& a, ld k) { return a * (1 / k); }
inline J operator/(ld k, const J& a) { return inv(a) * k; }
inline J& operator+=(J& a, const J& b) { return a = a + b; }
inline J& operator-=(J& a, const J& b) { return a = a - b; }
inline J& operator*=(J& a, const J& b) { return a = a * b; }
inline J& operator/=(J& a, const J& b) { return a = a / b; }
inline J& operator+=(J& a, ld k) { return a = a + k; }
inline J& operator-=(J& a, ld k) { return a = a - k; }
inline J& operator*=(J& a, ld k) { return a = a * k; }
inline J& operator/=(J& a, ld k) { return a = a / k; }
inline J square(const J& x) { return x * x; }
inline J cube(const J& x) { return x * x * x; }
inline J pow(const J& x, int n) { return chain(x, powl(x.v, n), n == 0 ? 0 : n * powl(x.v, n - 1), n == 0 || n == 1 ? 0 : n * (n - 1.0L) * powl(x.v, n - 2)); }
inline J sqrt(const J& x) { ld s = sqrtl(x.v); return chain(x, s, 0.5L / s, -0.25L / (s * x.v)); }
inline J sin(const J& x) { return chain(x, sinl(x.v), cosl(x.v), -sinl(x.v)); }
inline J cos(const J& x) { return chain(x, cosl(x.v), -sinl(x.v), -cosl(x.v)); }
inline J tan(const J& x) { return sin(x) / cos(x); }
inline J cot(const J& x) { return cos(x) / sin(x); }
inline J exp(const J& x) { ld e = expl(x.v); return chain(x, e, e, e); }
inline J ln(const J& x) { return chain(x, logl(x.v), 1 / x.v, -1 / (x.v * x.v)); }
inline J log2(const J& x) { return ln(x) * (1 / logl(2.0L)); }
inline J log10(const J& x) { return ln(x) * (1 / logl(10.0L)); }
inline J abs(const J& x) { return x.v < 0 ? -x : x; }
inline J asin(const J& x) { ld q = 1 - x.v * x.v; return chain(x, asinl(x.v), 1 / sqrtl(q), x.v / (q * sqrtl(q))); }
inline J acos(const J& x) { return (-asin(x)) + PIl / 2; }
inline J atan(const J& x) { ld q = 1 + x.v * x.v; return chain(x, atanl(x.v), 1 / q, -2 * x.v / (q * q)); }
inline J sinh(const J& x) { return chain(x, sinhl(x.v), coshl(x.v), sinhl(x.v)); }
inline J cosh(const J& x) { return chain(x, coshl(x.v), sinhl(x.v), coshl(x.v)); }
inline J tanh(const J& x) { ld th_ = tanhl(x.v); return chain(x, th_, 1 - th_ * th_, -2 * th_ * (1 - th_ * th_)); }
}
// dual2 has no hyperbolic functions of its own
template<typename X> X hyp_sinh(const X& x) { return sinh(x); }
template<typename X> X hyp_cosh(const X& x) { return cosh(x); }
template<typename X> X hyp_tanh(const X& x) { return tanh(x); }
inline th::dual2 hyp_sinh(const th::dual2& x) { return (exp(x) - exp(-x)) * 0.5; }
inline th::dual2 hyp_cosh(const th::dual2& x) { return (exp(x) + exp(-x)) * 0.5; }
inline th::dual2 hyp_tanh(const th::dual2& x) { return (exp(x) - exp(-x)) / (exp(x) + exp(-x)); }

inline jets::J inverse_of(const jets::J& x) { return jets::inv(x); }
template<typename X> auto inverse_of(const X& x) -> decltype(x.inverse()) { return x.inverse(); }

// Unary functions by number, with the part of their domain where the derivatives are moderate
static const char* const UNARY[] = {"square", "cube", "pow", "sqrt", "sin", "cos", "tan", "cot", "exp", "ln", "log2", "log10", "abs", "asin", "acos", "atan", "sinh", "cosh", "tanh", "neg", "inverse"};
enum { NUNARY = 21 };
inline bool safe(int f, int n, ld x) {
	switch (f) {
	case 2: return n >= 0 || fabsl(x) > 0.2;
	case 3: case 9: case 10: case 11: return x > 0.05;
	case 6: return fabsl(cosl(x)) > 0.15; case 7: return fabsl(sinl(x)) > 0.15;
	case 8: case 16: case 17: case 18: return fabsl(x) < 8;
	case 12: return fabsl(x) > 1e-3; case 13: case 14: return fabsl(x) < 0.95;
	case 20: return fabsl(x) > 0.1;
	}
	return fabsl(x) < 1e3;
}
template<typename X> X unary(int f, int n, const X& x) {
	switch (f) {
	case 0: return square(x); case 1: return cube(x); case 2: return pow(x, n); case 3: return sqrt(x); case 4: return sin(x); case 5: return cos(x);
	case 6: return tan(x); case 7: return cot(x); case 8: return exp(x); case 9: return ln(x); case 10: return log2(x); case 11: return log10(x);
	case 12: return abs(x); case 13: return asin(x); case 14: return acos(x); case 15: return atan(x);
	case 16: return hyp_sinh(x); case 17: return hyp_cosh(x); case 18: return hyp_tanh(x); case 19: return -x; default: return inverse_of(x);
	}
}

// A straight line program over three registers holding the variables
struct Op { int kind, i, j, n, f; double k; };
typedef std::vector<Op> Prog;
template<typename X> void step(std::vector<X>& r, const Op& o) {
	X& a = r[o.i]; const X b = r[o.j];
	switch (o.kind) {
	case 0: a = unary(o.f, o.n, a); break;
	case 1: a = a + b; break; case 2: a = a - b; break; case 3: a = a * b; break; case 4: a = a / b; break;
	case 5: a += b; break; case 6: a -= b; break; case 7: a *= b; break; case 8: a /= b; break;
	case 9: a = a + o.k; break; case 10: a = a - o.k; break; case 11: a = a * o.k; break; case 12: a = a / o.k; break;
	case 13: a = o.k + a; break; case 14: a = o.k - a; break; case 15: a = o.k * a; break; case 16: a = o.k / a; break;
	case 17: a += o.k; break; case 18: a -= o.k; break; case 19: a *= o.k; break; default: a /= o.k;
	}
}
template<typename X> X run(const Prog& p, std::vector<X> r) { for (const Op& o : p) step(r, o); return r[0]; }
inline std::string prog_str(const Prog& p) {
	static const char* bn[] = {"", "+", "-", "*", "/", "+=", "-=", "*=", "/=", "+k", "-k", "*k", "/k", "k+", "k-", "k*", "k/", "+=k", "-=k", "*=k", "/=k"};
	std::string s; for (const Op& o : p) { s += "r" + std::to_string(o.i) + " "; s += o.kind == 0 ? std::string(UNARY[o.f]) + (o.f == 2 ? std::to_string(o.n) : "") : std::string(bn[o.kind]) + (o.kind <= 8 ? " r" + std::to_string(o.j) : " " + pbt::show(o.k)); s += "; "; } return s;
}
// Generate a program which stays in the domain at the given point; returns the reference jet of register 0
inline jets::J gen_prog(pbt::T& t, Prog& p, const std::vector<jets::J>& start, size_t len) {
	std::vector<jets::J> r = start;
	for (size_t s = 0; s < len; ++s) {
		Op o; o.kind = t.chance(1, 2) ? 0 : (int) t.i(1, 20); o.i = t.chance(2, 3) ? 0 : (int) t.i(0, (int64_t) r.size() - 1); o.j = (int) t.i(0, (int64_t) r.size() - 1); o.n = (int) t.i(-3, 5); o.f = (int) t.i(0, NUNARY - 1); o.k = t.chance(1, 2) ? (double) t.i(1, 4) * (t.coin() ? 1 : -1) : t.rnz(-3, 3);
		if (o.kind == 0 && (!safe(o.f, o.n, r[o.i].v) || (o.f >= 13 && o.f <= 15))) continue; // the arcs are only accurate to 1e-8
		if ((o.kind == 4 || o.kind == 8) && fabsl(r[o.j].v) < 0.2) continue;
		if ((o.kind == 12 || o.kind == 20) && std::fabs(o.k) < 0.2) continue;
		if (o.kind == 16 && fabsl(r[o.i].v) < 0.2) continue;
		std::vector<jets::J> q = r; step(q, o);
		if (!(q[o.i].size() < 2e3)) continue;
		r = q; p.push_back(o);
	}
	return r[0];
}

// Points over the whole domain of each function: tiny, large, close to its ends
inline double wide_point(pbt::T& t, int f) {
	const double sg = t.coin() ? 1 : -1;
	switch (f) {
	case 0: case 1: case 12: case 19: case 20: return sg * t.rlog(-30, 30);
	case 2: return sg * t.rlog(-20, 20);
	case 3: case 9: case 10: case 11: return t.chance(1, 4) ? 1 + sg * t.rlog(-12, -0.1) : t.rlog(-60, 60);
	case 4: case 5: case 6: case 7: return t.chance(1, 4) ? t.i(-8, 8) * 1.5707963267948966 + sg * t.rlog(-6, 0) : sg * t.rlog(-10, 3);
	case 8: return t.chance(1, 2) ? t.r(-300, 300) : sg * t.rlog(-12, 1);
	case 13: case 14: return t.coin() ? sg * (1 - t.rlog(-6, -0.1)) : sg * t.rlog(-12, -0.1);
	case 15: return sg * t.rlog(-12, 12);
	default: return t.chance(1, 2) ? t.r(-150, 150) : sg * t.rlog(-12, 1);
	}
}
// Condition of the value and of the derivatives with respect to the point: |f| + |x f'| at each order
inline void conditions(int f, int n, double x, ld* val, ld* cond) {
	const ld h = -1e-8L; jets::J a(x, 1), b(x * (1 + h), 1); a.g[0] = b.g[0] = 1; jets::J u = unary(f, n, a), v = unary(f, n, b);
	const ld p[3] = {u.v, u.g[0], u.h[0]}, q[3] = {v.v, v.g[0], v.h[0]};
	for (int k = 0; k < 3; ++k) { val[k] = p[k]; cond[k] = fabsl(p[k]) + fabsl((q[k] - p[k]) / h); }
	if (f == 18) { cond[0] += 1e-2L; cond[1] += 1; cond[2] += 1; } // 1 - tanh^2 cancels
	if (f == 16 || f == 17) for (int k = 0; k < 3; ++k) cond[k] += 1e-2L;
	if (f == 13 || f == 14) cond[0] += 1e4L; // the arcs of real numbers are approximate
	if (f == 15) cond[0] += 1e4L;
}
#endif
