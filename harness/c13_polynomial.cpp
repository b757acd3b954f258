// C13: polynomials form a ring with division, calculus and evaluation
#include "linref.hpp"
#include <complex>
using namespace pbt;
typedef th::polynomial<real> P;
typedef th::complex<real> cplx;
typedef std::vector<ld> L;

// Reference polynomials: plain coefficient lists
static L ladd(const L& a, const L& b, ld s = 1) {
	L r(std::max(a.size(), b.size()), 0);
	for (size_t i = 0; i < a.size(); ++i) r[i] += a[i];
	for (size_t i = 0; i < b.size(); ++i) r[i] += s * b[i];
	return r;
}
static L lmul(const L& a, const L& b) {
	if (a.empty() || b.empty()) return L();
	L r(a.size() + b.size() - 1, 0);
	for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
	return r;
}
static ld leval(const L& a, ld x) { ld s = 0; for (size_t i = a.size(); i--;) s = s * x + a[i]; return s; }
static ld lscale(const L& a, ld x) { ld s = 0, p = 1; for (size_t i = 0; i < a.size(); ++i, p *= x) s += fabsl(a[i] * p); return s; }
static P mk(const L& a) { std::vector<real> c; for (ld v : a) c.push_back((real) v); return P(c); }

// Equality as polynomials: coefficient by coefficient, missing ones are zero
static void same(T& t, const P& got, const L& want, ld tol, const char* what) {
	for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
		ld g = i < got.size() ? (ld) got.get((int) i) : 0, w = i < want.size() ? want[i] : 0;
		t.close(g, w, tol, std::string(what) + ", coefficient " + std::to_string(i));
	}
}
static void note(T& t, const char* k, const L& a) {
	std::ostringstream s; s << "[";
	for (size_t i = 0; i < a.size(); ++i) s << (i ? " " : "") << (double) a[i];
	t.note(k, s.str() + "]");
}
// A coefficient list of up to n terms: small integers (exact arithmetic) or reals, possibly with trailing zeros
static L gen(T& t, int lo, int hi) {
	int n = (int) t.sz(lo, hi, hi + 40);
	bool ints = t.coin();
	L a(n);
	for (auto& v : a) v = ints ? (ld) t.i(-5, 5) : (ld) (real) t.r(-4, 4);
	if (n && t.chance(1, 4)) { int z = (int) t.n(1, std::min(n, 3)); for (int i = 0; i < z; ++i) a[n - 1 - i] = 0; }
	return a;
}
static int degree(const L& a) { for (size_t i = a.size(); i--;) if (a[i] != 0) return (int) i; return 0; }

LAW(sum_difference_product, 60000) {
	L a = gen(t, 0, 9), b = gen(t, 0, 9);
	note(t, "a", a); note(t, "b", b);
	P p = mk(a), q = mk(b);
	t.nontrivial(a.size() > 1 && b.size() > 1);
	t.label(a.size() < b.size() ? "shorter first" : a.size() > b.size() ? "shorter second" : "same length");
	t.label_if(a.empty() || b.empty(), "empty operand");
	same(t, p + q, ladd(a, b), 1e-12, "sum");
	same(t, p - q, ladd(a, b, -1), 1e-12, "difference");
	same(t, p * q, lmul(a, b), 1e-11, "product");
	same(t, p, a, 0, "first operand after the operations");
	same(t, q, b, 0, "second operand after the operations");
	P r = p; r += q; same(t, r, ladd(a, b), 1e-12, "sum in place");
	r = p; r -= q; same(t, r, ladd(a, b, -1), 1e-12, "difference in place");
	r = p; r *= q; same(t, r, lmul(a, b), 1e-11, "product in place");
	real x = (real) t.r(-2, 2); t.note("x", x);
	t.close(p.eval(x), leval(a, x), 1e-13 * (1 + lscale(a, x)) * 10, "evaluation");
	t.close(p(x), leval(a, x), 1e-13 * (1 + lscale(a, x)) * 10, "evaluation by call");
	t.close((p * q)(x), leval(a, x) * leval(b, x), 1e-12 * (1 + lscale(a, x)) * (1 + lscale(b, x)), "evaluation is multiplicative");
}

LAW(aliased_operands, 20000) {
	L a = gen(t, 1, 8); note(t, "a", a);
	t.nontrivial(a.size() > 1);
	P p = mk(a); p += p; same(t, p, ladd(a, a), 1e-12, "p += p");
	p = mk(a); p -= p; same(t, p, L(a.size(), 0), 0, "p -= p");
	p = mk(a); p *= p; same(t, p, lmul(a, a), 1e-11, "p *= p");
}

LAW(scalars, 30000) {
	L a = gen(t, 0, 8); real k = (real) t.rnz(0.01, 9);
	note(t, "a", a); NOTE(k);
	t.nontrivial(a.size() > 1);
	P p = mk(a);
	L w = a; for (auto& v : w) v *= k;
	same(t, p * k, w, 1e-12, "polynomial times scalar");
	same(t, k * p, w, 1e-12, "scalar times polynomial");
	P r = p; r *= k; same(t, r, w, 1e-12, "scaled in place");
	w = a; for (auto& v : w) v /= k;
	same(t, p / k, w, 1e-12, "polynomial divided by scalar");
	r = p; r /= k; same(t, r, w, 1e-12, "divided in place");
	same(t, k + p, ladd(a, L{k}), 1e-12, "scalar plus polynomial");
	L m = a; for (auto& v : m) v = -v;
	same(t, k - p, ladd(m, L{k}), 1e-12, "scalar minus polynomial");
	same(t, P(k), L{k}, 0, "constant polynomial");
}

LAW(euclidean_division, 60000) {
	// a = q d + r with deg r < deg d: the quotient is unique
	int dd = (int) t.sz(0, 4, 12), qd = (int) t.sz(0, 4, 20);
	bool zq = t.chance(1, 10);
	L d(dd + 1), q(zq ? 0 : qd + 1), r(dd);
	for (auto& v : d) v = t.i(-4, 4);
	if (d[dd] == 0) d[dd] = 1;
	for (auto& v : q) v = t.i(-4, 4);
	if (!zq && q[qd] == 0) q[qd] = 1;
	for (auto& v : r) v = t.i(-4, 4);
	L a = ladd(lmul(q, d), r);
	if (a.empty()) a.push_back(0);
	if (t.chance(1, 4)) for (int z = (int) t.n(1, 2); z--;) a.push_back(0);
	if (t.chance(1, 4)) for (int z = (int) t.n(1, 2); z--;) d.push_back(0);
	note(t, "dividend", a); note(t, "divisor", d);
	t.nontrivial(dd >= 1 && qd >= 1 && !zq);
	t.label_if(zq, "dividend of lower degree"); t.label_if(dd == 0, "constant divisor"); t.label_if(d.back() == 0 || a.back() == 0, "trailing zeros");
	int err;
	P got = with_errno(err, [&] { return mk(a) / mk(d); });
	same(t, got, q, 1e-10, "quotient");
	t.check(err == 0, "a division with non-null divisor reported an error");
	P in = mk(a); in /= mk(d);
	same(t, in, q, 1e-10, "quotient in place");
	for (size_t i = 0; i < got.size(); ++i) t.check(!std::isnan((double) got.get((int) i)), "quotient is a number");
}

LAW(division_of_reals, 30000) {
	int dd = (int) t.n(0, 3), qd = (int) t.n(0, 4);
	L d(dd + 1), q(qd + 1), r(dd);
	for (auto& v : d) v = (real) t.r(-2, 2);
	d[dd] = (real) t.rnz(0.5, 3);
	for (auto& v : q) v = (real) t.r(-3, 3);
	q[qd] = (real) t.rnz(0.25, 3);
	for (auto& v : r) v = (real) t.r(-3, 3);
	L a = ladd(lmul(q, d), r);
	note(t, "dividend", a); note(t, "divisor", d);
	t.nontrivial(dd >= 1 && qd >= 1);
	// the growth of rounding errors is bounded by the ratio of the divisor's coefficients
	ld g = 1; for (auto v : d) g = std::max(g, fabsl(v / d[dd]));
	same(t, mk(a) / mk(d), q, 1e-12 * powl(1 + g, qd + 1) * 100, "quotient");
}

LAW(order_and_trim, 30000) {
	L a = gen(t, 0, 8); note(t, "a", a);
	P p = mk(a);
	bool null = true; for (auto v : a) if (v != 0) null = false;
	bool tiny = false; for (auto v : a) if (v != 0 && fabsl(v) < 1e-9) tiny = true;
	if (tiny) t.discard();
	t.nontrivial(!null && a.size() > 1);
	t.label_if(null, "null polynomial"); t.label_if(!a.empty() && a.back() == 0, "trailing zeros");
	t.eq((unsigned) p.find_order(), (unsigned) degree(a), "order");
	t.eq(p.size(), a.size(), "number of coefficients");
	P q = p; q.trim();
	same(t, q, a, 0, "trimmed polynomial");
	if (null) t.check(q.size() <= 1, "trimming a null polynomial leaves at most a constant");
	else t.eq(q.size(), (size_t) degree(a) + 1, "size after trimming");
}

LAW(equality, 40000) {
	L a = gen(t, 0, 7), b = a;
	int how = (int) t.i(0, 2);
	bool equal = true;
	if (how == 1) for (int z = (int) t.n(1, 3); z--;) b.push_back(0);
	if (how == 2) {
		size_t k = (size_t) t.n(0, 8);
		while (b.size() <= k) b.push_back(0);
		double gap = t.coin() ? t.rnz(0.5, 3) : t.rlogs(-13, 0); b[k] = (double) (b[k] + gap); if (fabsl(b[k] - (k < a.size() ? a[k] : 0)) < 1e-14L) t.discard(); equal = false;
	}
	note(t, "a", a); note(t, "b", b);
	t.nontrivial(a.size() > 1);
	t.label(how == 0 ? "identical" : how == 1 ? "padded" : "different");
	t.eq(mk(a) == mk(b), equal, "equality of polynomials");
	t.eq(mk(b) == mk(a), equal, "equality of polynomials, exchanged");
}

LAW(quadratic, 60000) {
	// real, repeated and complex roots; also roots of very different size
	int how = (int) t.i(0, 3);
	ld a = t.rnz(0.1, 8), s, pr;
	if (how == 0) { ld r1 = t.r(-9, 9), r2 = t.r(-9, 9); s = r1 + r2; pr = r1 * r2; }
	else if (how == 1) { ld re = t.r(-9, 9), im = t.r(0.05, 9); s = 2 * re; pr = re * re + im * im; }
	else if (how == 2) { ld r1 = t.rlogs(2, 8), r2 = t.rlogs(-6, 0); s = r1 + r2; pr = r1 * r2; }
	else { ld r1 = t.i(-6, 6), r2 = t.i(-6, 6); a = t.i(1, 4); s = r1 + r2; pr = r1 * r2; }
	P p({(real) (a * pr), (real) (-a * s), (real) a});
	if (t.chance(1, 5)) p.coeff.push_back(0);
	NOTE(how); t.note("p", (std::string) p); t.nontrivial(pr != 0);
	t.label(how == 0 ? "real roots" : how == 1 ? "complex roots" : how == 2 ? "roots of different size" : "integer roots");
	auto z = p.quadratic_roots();
	// both conditions together determine the pair; a null root is allowed to absorb the unit in the last place
	ld zr = (ld) z[0].Re() + z[1].Re(), zi = (ld) z[0].Im() + z[1].Im();
	ld m = 1 + fabsl(s) + sqrtl(fabsl(pr));
	t.close(zr, s, 1e-13 * m, "sum of the roots"); t.close(zi, 0, 1e-13 * m, "imaginary part of the sum of the roots");
	ld qr = (ld) z[0].Re() * z[1].Re() - (ld) z[0].Im() * z[1].Im(), qi = (ld) z[0].Re() * z[1].Im() + (ld) z[0].Im() * z[1].Re();
	t.close(qr, pr, 1e-13 * m * m, "product of the roots"); t.close(qi, 0, 1e-13 * m * m, "imaginary part of the product");
	if (how == 2) {
		// the smaller root keeps its relative accuracy
		ld small = std::min(hypotl(z[0].Re(), z[0].Im()), hypotl(z[1].Re(), z[1].Im()));
		ld disc = sqrtl(s * s / 4 - pr), big = fabsl(s) / 2 + disc, sm = fabsl(pr) / big;
		t.approx(small, sm, 1e-12, 0, "smaller root");
	}
}

LAW(from_roots, 30000) {
	int n = (int) t.sz(0, 7, 16);
	std::vector<real> r; L w{1}, mag{1}; double u = std::ldexp(1.0, t.coin() ? 0 : (int) t.i(-30, 30));
	bool ints = t.coin();
	for (int i = 0; i < n; ++i) { r.push_back(i && t.chance(1, 5) ? r[t.n(0, i - 1)] * (t.coin() ? 1 : -1) : (ints ? (real) t.i(-4, 4) : (real) t.r(-3, 3)) * u); w = lmul(w, L{-(ld) r.back(), 1}); mag = lmul(mag, L{fabsl(r.back()), 1}); }
	t.note("roots", r.size()); note(t, "want", w);
	t.nontrivial(n > 1);
	P p = P::from_roots(r);
	t.eq(p.size(), (size_t) n + 1, "number of coefficients"); for (int i = 0; i <= n; ++i) t.close(p.get(i), w[i], 1e-14L * mag[i], "coefficient from the roots");
	t.eq(p.find_order(), (unsigned) n, "order of the polynomial from its roots");
	for (auto x : r) t.close(p(x), 0, 1e-13L * lscale(mag, fabsl(x)), "value at a root");
	unsigned k = (unsigned) t.sz(0, 9, 80); real c = (real) t.rnz(0.5, 4);
	P m = P::monomial(c, k);
	L mw(k + 1, 0); mw[k] = c;
	t.eq(m.size(), (size_t) k + 1, "size of a monomial");
	same(t, m, mw, 0, "monomial");
}

LAW(derivative_and_integral, 50000) {
	L a = gen(t, 1, 9); note(t, "a", a);
	P p = mk(a);
	real x = (real) t.r(-2, 2), y = (real) t.r(-2, 2); NOTE(x); NOTE(y);
	t.nontrivial(a.size() > 2);
	L d; for (size_t i = 1; i < a.size(); ++i) d.push_back(a[i] * i);
	L in{0}; for (size_t i = 0; i < a.size(); ++i) in.push_back(a[i] / (ld) (i + 1));
	same(t, th::deriv(p), d, 1e-12, "derivative");
	t.close(th::deriv(p, x), leval(d, x), 1e-12 * (1 + lscale(d, x)), "derivative at a point");
	same(t, th::integral(p), in, 1e-12, "primitive");
	t.close(th::integral(p, x, y), leval(in, y) - leval(in, x), 1e-12 * (1 + lscale(in, x) + lscale(in, y)), "definite integral");
	same(t, th::deriv(th::integral(p)), a, 1e-12, "derivative of the primitive");
	same(t, p, a, 0, "operand");
}

LAW(complex_polynomials, 30000) {
	int n = (int) t.n(1, 6), m = (int) t.n(1, 6);
	typedef th::polynomial<cplx> PC;
	typedef std::complex<ld> C;
	std::vector<C> a(n), b(m), s(std::max(n, m)), pr(n + m - 1);
	std::vector<cplx> ca, cb;
	for (auto& v : a) { v = C((real) t.r(-3, 3), (real) t.r(-3, 3)); ca.push_back(cplx((real) v.real(), (real) v.imag())); }
	for (auto& v : b) { v = C((real) t.r(-3, 3), (real) t.r(-3, 3)); cb.push_back(cplx((real) v.real(), (real) v.imag())); }
	C z((real) t.r(-1.5, 1.5), (real) t.r(-1.5, 1.5)); cplx cz((real) z.real(), (real) z.imag());
	NOTE(n); NOTE(m); t.nontrivial(n > 1 && m > 1);
	for (int i = 0; i < n; ++i) { s[i] += a[i]; for (int j = 0; j < m; ++j) pr[i + j] += a[i] * b[j]; }
	for (int j = 0; j < m; ++j) s[j] += b[j];
	auto chk = [&](const PC& g, const std::vector<C>& w, const char* what) {
		t.eq(g.size(), w.size(), what);
		for (size_t i = 0; i < w.size(); ++i) { t.close(g.get(i).Re(), w[i].real(), 1e-11, what); t.close(g.get(i).Im(), w[i].imag(), 1e-11, what); }
	};
	PC p(ca), q(cb);
	chk(p + q, s, "sum of complex polynomials");
	chk(p * q, pr, "product of complex polynomials");
	C w = 0; for (int i = n; i--;) w = w * z + a[i];
	cplx g = p(cz);
	t.close(g.Re(), w.real(), 1e-10, "complex evaluation"); t.close(g.Im(), w.imag(), 1e-10, "complex evaluation");
	// a real polynomial evaluated at a complex point
	L ra = gen(t, 1, 6); note(t, "real", ra);
	w = 0; ld sz = 1; for (size_t i = ra.size(); i--;) { w = w * z + ra[i]; sz = sz * std::abs(z) + fabsl(ra[i]); }
	g = mk(ra)(cz);
	t.close(g.Re(), w.real(), 1e-10 + 1e-13 * sz, "real polynomial at a complex point"); t.close(g.Im(), w.imag(), 1e-10 + 1e-13 * sz, "real polynomial at a complex point");
}

LAW(iteration_and_access, 10000) {
	L a = gen(t, 0, 8); note(t, "a", a);
	P p = mk(a); t.nontrivial(a.size() > 1);
	{ size_t j = 0; for (auto it = p.cbegin(); it != p.cend(); ++it, ++j) t.check(j < a.size() && *it == (real) a[j], "order of constant iteration"); t.eq(j, a.size(), "number of coefficients iterated"); }
	size_t k = 0;
	for (auto it = p.begin(); it != p.end(); ++it, ++k) t.check(k < a.size() && *it == (real) a[k], "iteration order");
	t.eq(k, a.size(), "number of iterated coefficients");
	const P& c = p;
	for (size_t i = 0; i < a.size(); ++i) {
		t.check(p.at((int) i) == (real) a[i] && p.get((int) i) == (real) a[i] && p[(unsigned) i] == (real) a[i] && c[(unsigned) i] == (real) a[i], "element access");
		p.at((int) i) = 7; t.check(p[(unsigned) i] == 7, "write through at()"); p[(unsigned) i] = 8; t.check(p.get((int) i) == 8, "write through []");
	}
}

// Coefficients of any size, next to each other: every operation is accurate coefficient by coefficient
static L wide(T& t, int lo, int hi) {
	int n = (int) t.sz(lo, hi, hi + 40); bool sparse = t.chance(1, 4); double u = std::ldexp(1.0, (int) t.i(-40, 40)); bool mixed = t.coin(); L a(n);
	for (auto& v : a) { v = sparse && t.chance(2, 3) ? 0.0 : gen_factor(t, 4) * u * (mixed ? std::ldexp(1.0, (int) t.i(-30, 30)) : 1.0); }
	return a;
}
static L labs_(L a) { for (auto& v : a) v = fabsl(v); return a; }
static void near(T& t, const P& got, const L& want, const L& mag, ld eps, const char* what) {
	for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) t.close(i < got.size() ? (ld) got.get((int) i) : 0, i < want.size() ? want[i] : 0, eps * (i < mag.size() ? mag[i] : 0), std::string(what) + ", coefficient " + std::to_string(i));
}
LAW(coefficients_of_any_size, 60000) {
	L a = wide(t, 0, 9), b = wide(t, 0, 9); if (t.chance(1, 5)) { b = a; for (auto& v : b) if (t.chance(1, 3)) v = -v; } note(t, "a", a); note(t, "b", b); P p = mk(a), q = mk(b); t.nontrivial(a.size() > 1 && b.size() > 1); L m = ladd(labs_(a), labs_(b)), w, d, in;
	near(t, p + q, ladd(a, b), m, 1e-15, "sum"); near(t, p - q, ladd(a, b, -1), m, 1e-15, "difference"); near(t, p * q, lmul(a, b), lmul(labs_(a), labs_(b)), 1e-14, "product");
	P r = p; r += q; near(t, r, ladd(a, b), m, 1e-15, "sum in place"); r = p; r -= q; near(t, r, ladd(a, b, -1), m, 1e-15, "difference in place"); r = p; r *= q; near(t, r, lmul(a, b), lmul(labs_(a), labs_(b)), 1e-14, "product in place");
	double k = gen_factor(t, 5) * std::ldexp(1.0, (int) t.i(-30, 30)); NOTE(k); w = a; for (auto& v : w) v *= k; near(t, p * (real) k, w, labs_(w), 1e-15, "polynomial times scalar"); near(t, (real) k * p, w, labs_(w), 1e-15, "scalar times polynomial"); r = p; r *= (real) k; near(t, r, w, labs_(w), 1e-15, "scaled in place");
	L ks{k}; w = ladd(a, ks); near(t, (real) k + p, w, ladd(labs_(a), labs_(ks)), 1e-15, "scalar plus polynomial"); L neg = a; for (auto& v : neg) v = -v; near(t, (real) k - p, ladd(neg, ks), ladd(labs_(a), labs_(ks)), 1e-15, "scalar minus polynomial");
	if (std::fabs(k) > 1e-15) { w = a; for (auto& v : w) v /= k; near(t, p / (real) k, w, labs_(w), 1e-15, "polynomial divided by scalar"); r = p; r /= (real) k; near(t, r, w, labs_(w), 1e-15, "divided in place"); }
	for (size_t i = 1; i < a.size(); ++i) d.push_back(a[i] * i); in.push_back(0); for (size_t i = 0; i < a.size(); ++i) in.push_back(a[i] / (ld) (i + 1)); if (!a.empty()) near(t, th::deriv(p), d, labs_(d), 1e-15, "derivative"); near(t, th::integral(p), in, labs_(in), 1e-15, "primitive");
	double x = t.coin() ? gen_factor(t, 3) : t.rlogs(-4, 4), y = t.coin() ? x : gen_factor(t, 3); NOTE(x); NOTE(y); ld sx = lscale(a, std::fabs(x)); if (sx < 1e250L && !a.empty()) { t.close(p.eval((real) x), leval(a, x), 1e-14L * sx, "evaluation"); t.close(p((real) x), leval(a, x), 1e-14L * sx, "evaluation by call"); t.close(th::deriv(p, (real) x), leval(d, x), 1e-14L * lscale(d, std::fabs(x)), "derivative at a point"); cplx c = p(cplx((real) x, 0)); t.close(c.Re(), leval(a, x), 1e-14L * sx, "evaluation at a complex point"); t.close(c.Im(), 0, 0, "evaluation at a complex point"); t.close(th::integral(p, (real) x, (real) y), leval(in, y) - leval(in, x), 1e-14L * (lscale(in, std::fabs(x)) + lscale(in, std::fabs(y))), "definite integral"); }
	same(t, p, a, 0, "operand"); same(t, q, b, 0, "operand");
}

// Division in any units
LAW(division_in_units, 40000) {
	int dd = (int) t.sz(0, 4, 12), qd = (int) t.sz(0, 4, 30); double ua = std::ldexp(1.0, (int) t.i(-30, 40)), ud = std::ldexp(1.0, (int) t.i(-30, 40)); bool sparse = t.chance(1, 3); L d(dd + 1), q(qd + 1), r(dd); auto z = [&] { return sparse && t.chance(2, 3) ? (ld) 0 : (ld) t.i(-4, 4); };
	for (auto& v : d) v = z(); if (d[dd] == 0) d[dd] = t.coin() ? 1 : -1; for (auto& v : q) v = z(); if (q[qd] == 0) q[qd] = t.coin() ? 1 : 2; for (auto& v : r) v = z(); bool exact = t.chance(1, 4); if (exact) for (auto& v : r) v = 0;
	L a = ladd(lmul(q, d), r); for (auto& v : a) v *= ua; for (auto& v : d) v *= ud; for (auto& v : q) v *= ua / ud; NOTE(ua); NOTE(ud); note(t, "dividend", a); note(t, "divisor", d); t.nontrivial(dd >= 1 && qd >= 1); t.label_if(exact, "exact"); t.label_if(sparse, "sparse"); ld m = 0; for (ld v : q) m = std::max(m, fabsl(v));
	P pa = mk(a), pd = mk(d); same(t, pa / pd, q, 1e-12L * m, "quotient"); same(t, pa, a, 0, "dividend"); same(t, pd, d, 0, "divisor"); P in = pa; in /= pd; same(t, in, q, 1e-12L * m, "quotient in place"); P one = pd; one /= one; same(t, one, L{1}, 1e-15L, "p /= p"); same(t, pd / pd, L{1}, 1e-15L, "p / p");
}

// Roots of quadratics in any unit, each of them with its own relative accuracy when they are apart
LAW(quadratic_in_units, 60000) {
	ld a = std::ldexp((double) t.rnz(0.1, 8), (int) t.i(-20, 40)); ld u = std::ldexp(1.0, (int) t.i(-60, 60)); bool cx = t.chance(1, 3); ld s, pr, r1 = 0, r2 = 0;
	if (cx) { ld re = gen_factor(t, 9), im = t.rlog(-6, 1); s = 2 * re; pr = re * re + im * im; } else { r1 = t.rnz(0.1, 9); r2 = t.coin() ? t.rlogs(-14, 0) : (double) gen_factor(t, 9); s = r1 + r2; pr = r1 * r2; }
	s *= u; pr *= u * u; P p({(real) (a * pr), (real) (-a * s), (real) a}); ld c2 = p.get(2), S = -(ld) p.get(1) / c2, Q = (ld) p.get(0) / c2; NOTE(u); note(t, "p", L{p.get(0), p.get(1), p.get(2)}); if (fabsl(c2) < 1e-12L) t.discard(); t.nontrivial(Q != 0); t.label(cx ? "complex" : "real");
	auto z = p.quadratic_roots(); ld m = fabsl(S) + sqrtl(fabsl(Q)); typedef std::complex<ld> C; C z1(z[0].Re(), z[0].Im()), z2(z[1].Re(), z[1].Im());
	auto near0 = [&](C g, C w, ld tol, const char* msg) { t.close(g.real(), w.real(), tol, msg); t.close(g.imag(), w.imag(), tol, msg); };
	near0(z1 + z2, C(S), 1e-14L * m, "sum of the roots"); near0(z1 * z2, C(Q), 1e-14L * (fabsl(Q) + (fabsl(S * S / 4 - Q) < 1e-3L * m * m ? m * m : 0)), "product of the roots");
	ld disc = S * S / 4 - Q; if (disc > 1e-3L * m * m) { ld big = fabsl(S) / 2 + sqrtl(disc), sm = Q / big; big = S < 0 ? -big : big; sm = S < 0 ? -sm : sm; C l = std::abs(z1) > std::abs(z2) ? z1 : z2, k = std::abs(z1) > std::abs(z2) ? z2 : z1; near0(k, C(fabsl(S) < 1e-3L * m ? k.real() : sm), 1e-12L * fabsl(sm), "smaller root"); near0(l, C(fabsl(S) < 1e-3L * m ? l.real() : big), 1e-12L * fabsl(big), "larger root"); }
}

// Long polynomials: products, sums, derivatives, integrals, evaluation and polynomials from many roots
LAW(long_polynomials, 400) {
	size_t n = t.n(20, 320), m = t.n(1, 90); if (t.coin()) n = t.n(20, 80); L a(n), b(m); for (auto& v : a) v = (ld) t.i(-9, 9); for (auto& v : b) v = (ld) t.i(-9, 9); if (a.back() == 0) a.back() = 1; if (b.back() == 0) b.back() = 1; t.note("sizes", std::vector<double>{(double) n, (double) m}); note(t, "b", b); t.nontrivial(); t.label_if(n > 256, "more than 256 coefficients");
	P A = mk(a), B = mk(b); same(t, A * B, lmul(a, b), 0, "product"); same(t, B * A, lmul(a, b), 0, "product"); same(t, A + B, ladd(a, b), 0, "sum"); same(t, A - B, ladd(a, b, -1), 0, "difference"); same(t, B - A, ladd(b, a, -1), 0, "difference"); P C = A; C += B; same(t, C, ladd(a, b), 0, "+="); C = B; C -= A; same(t, C, ladd(b, a, -1), 0, "-="); C = A; C *= B; same(t, C, lmul(a, b), 0, "*=");
	L d, p = {0}; for (size_t i = 1; i < n; ++i) d.push_back(a[i] * i); for (size_t i = 0; i < n; ++i) p.push_back(a[i] / (ld) (i + 1)); same(t, th::deriv(A), d, 0, "derivative"); same(t, th::integral(A), p, 1e-15L, "primitive"); t.eq((size_t) A.find_order(), n - 1, "degree");
	double x = t.r(-1.01, 1.01); NOTE(x); t.close(A((real) x), leval(a, x), 1e-15L * n * lscale(a, fabsl(x)), "value"); t.close(th::deriv(A, (real) x), leval(d, x), 1e-15L * n * lscale(d, fabsl(x)), "derivative at a point"); double y = t.r(-1.01, 1.01); t.close(th::integral(A, (real) x, (real) y), leval(p, y) - leval(p, x), 1e-15L * n * (lscale(p, fabsl(x)) + lscale(p, fabsl(y))), "integral over an interval"); double h = x + t.rlogs(-12, -6), hx = h - x; t.close(th::integral(A, (real) x, (real) h), leval(a, x) * hx, 1e-15L * n * lscale(p, fabsl(x)) * 4 + lscale(d, fabsl(x) + 1e-6L) * hx * hx, "integral over a short interval");
	// roots among -1, 0 and 1, whose polynomial has integer coefficients
	{ size_t k = t.n(1, 45); std::vector<real> r; L w = {1}; for (size_t i = 0; i < k; ++i) { int v = (int) t.i(-1, 1); r.push_back((real) v); w = lmul(w, L{(ld) -v, 1}); } t.note("roots", k); ld mx = 1; for (ld v : w) mx = std::max(mx, fabsl(v)); same(t, P::from_roots(r), w, mx < 9e15L ? 0 : 1e-14L * mx, "polynomial from many roots"); }
}
// A polynomial of another degree has no pair of quadratic roots; a null divisor is reported by every form of the division
LAW(refused_operations, 10000) {
	size_t n = t.n(1, 8); L a(n); for (auto& v : a) v = (ld) t.i(-3, 3); if (a.back() == 0) a.back() = 2; size_t zeros = t.n(0, 3); for (size_t i = 0; i < zeros; ++i) a.push_back(0); note(t, "a", a); t.nontrivial(); int err = 0; if (degree(a) != 2) { auto r = with_errno(err, [&] { return mk(a).quadratic_roots(); }); t.check(err != 0, "the roots of a polynomial which is not quadratic are reported"); t.check(std::isnan(r[0].a) && std::isnan(r[1].a), "the roots of a polynomial which is not quadratic are NaN"); }
	L z(t.n(0, 3), 0); P q = with_errno(err, [&] { return mk(a) / mk(z); }); t.check(err != 0 && q.size() && std::isnan((double) q[0]), "division by the null polynomial"); q = with_errno(err, [&] { P p = mk(a); p /= mk(z); return p; }); t.check(err != 0 && q.size() && std::isnan((double) q[0]), "division by the null polynomial in place"); with_errno(err, [&] { return mk(a) / (real) 0; }); t.check(err != 0, "division by zero is reported"); with_errno(err, [&] { P p = mk(a); p /= (real) 0; return p; }); t.check(err != 0, "division by zero in place is reported");
}
