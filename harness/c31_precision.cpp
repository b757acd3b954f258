// C31: every floating-point type of the library gives results as accurate as the type allows
#include "common.hpp"
#include <complex>
using namespace pbt;
namespace alg = th::algebra;
typedef std::complex<ld> cld;
typedef th::complex<real> cplx;

// the constants and tables of the library have the precision of double
static const ld U = std::max((ld) std::numeric_limits<real>::epsilon(), 2.3e-16L);
static const ld ARC = std::max(4e-8L, 4 * U);
#ifdef THEORETICA_X86
#define HW(fast, portable) (fast)
#else
#define HW(fast, portable) (portable)
#endif
static const bool SINGLE = sizeof(real) == 4;
static real rr(T& t, double lo, double hi) { real x = (real) t.r(lo, hi); if (sizeof(real) > 8 && t.coin()) x += (real) (x * 1e-17L * t.i(-8, 8)); return x < (real) lo ? (real) lo : x > (real) hi ? (real) hi : x; }
template<typename V> static V rv(T& t, size_t n, double lo, double hi) { V v; v.resize(n); for (size_t i = 0; i < n; ++i) v[i] = rr(t, lo, hi); return v; }
namespace pbt { template<> struct Show<long double> { static std::string str(long double x) { std::ostringstream o; o.precision(21); o << x; return o.str(); } }; }
static std::string str(const std::vector<ld>& v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + Show<long double>::str(v[i]); return s + ")"; }
template<typename V> static std::vector<ld> L(const V& v) { std::vector<ld> r; for (size_t i = 0; i < v.size(); ++i) r.push_back((ld) v[i]); return r; }

LAW(constants, 500) {
	struct C { const char* n; real got; ld want; };
	static const C c[] = {
		{"PHI", th::PHI, (1 + sqrtl(5)) / 2}, {"INVPHI", th::INVPHI, 2 / (1 + sqrtl(5))}, {"PI", th::PI, PIl}, {"PI2", th::PI2, PIl / 2}, {"PI4", th::PI4, PIl / 4}, {"PIDOUBLE", th::PIDOUBLE, 2 * PIl},
		{"TAU", th::TAU, 2 * PIl}, {"INVPI", th::INVPI, 1 / PIl}, {"SQRTPI", th::SQRTPI, sqrtl(PIl)}, {"E", th::E, expl(1)}, {"LOG2E", th::LOG2E, 1 / logl(2)}, {"LOG210", th::LOG210, logl(10) / logl(2)},
		{"LOG10E", th::LOG10E, 1 / logl(10)}, {"LN2", th::LN2, logl(2)}, {"LN10", th::LN10, logl(10)}, {"DEG2RAD", th::DEG2RAD, PIl / 180}, {"RAD2DEG", th::RAD2DEG, 180 / PIl},
		{"SQRT2", th::SQRT2, sqrtl(2)}, {"INVSQR2", th::INVSQR2, sqrtl(0.5L)}, {"SQRT3", th::SQRT3, sqrtl(3)}};
	const C& k = t.pick(c); t.note("constant", std::string(k.n)); t.nontrivial(); t.label(k.n);
	t.approx(k.got, k.want, U, 0, k.n);
	t.check(th::MACH_EPSILON == std::numeric_limits<real>::epsilon(), "MACH_EPSILON is the epsilon of the type");
	t.check((real) (1 + th::MACH_EPSILON) > 1, "1 + MACH_EPSILON");
}

LAW(elementary_functions, 120000) {
	static const char* const N[] = {"sqrt", "cbrt", "exp", "expm1", "ln", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sigmoid", "sinc", "powf", "root", "pow", "atan2", "floor", "fract", "radians", "degrees", "square", "cube", "abs", "max", "min", "clamp", "coth", "cot"};
	size_t f = t.n(0, sizeof N / sizeof *N - 1); real x = 0, y = 0; int n = 1; t.label(N[f]); t.note("function", std::string(N[f]));
	switch (f) {
	case 0: case 4: case 5: case 6: x = (real) t.rlog(-18, 18); break;
	case 1: x = (real) t.rlogs(-18, 18); break;
	case 2: case 13: case 14: case 19: x = rr(t, -60, 60); break; case 3: x = t.coin() ? (real) t.rlogs(-8, -1) : rr(t, -20, 20); break;
	case 7: case 8: x = rr(t, -100, 100); break; case 9: case 36: x = rr(t, -12, 12); break;
	case 10: case 11: x = rr(t, -1, 1); break; case 12: x = (real) t.rlogs(-4, 4); break;
	case 17: x = 1 + (real) t.rlog(-1, 3); break; case 18: x = rr(t, -0.9, 0.9); break;
	case 21: x = (real) t.rlog(-3, 3); y = rr(t, -4, 4); break; case 22: x = (real) t.rlog(-6, 6); n = (int) t.i(1, 8); break; case 23: x = (real) t.rnz(0.25, 4); n = (int) t.i(-12, 12); break;
	case 24: x = rr(t, -10, 10); y = rr(t, -10, 10); if (x == 0 || y == 0) t.discard(); break;
	case 25: case 26: x = t.coin() ? rr(t, -1000, 1000) : (real) t.i(-1000, 1000); break;
	default: x = rr(t, -20, 20); y = rr(t, -20, 20);
	}
	t.note("x", (ld) x); t.note("y", (ld) y); NOTE(n); t.nontrivial(x != 0 && x != 1); const ld X = x, Y = y; ld w = 0, rel = 8 * U, a = 0; real g = 0; int err;
	g = with_errno(err, [&]() -> real { switch (f) {
	case 0: return th::sqrt(x); case 1: return th::cbrt(x); case 2: return th::exp(x); case 3: return th::expm1(x); case 4: return th::ln(x); case 5: return th::log2(x); case 6: return th::log10(x);
	case 7: return th::sin(x); case 8: return th::cos(x); case 9: return th::tan(x); case 10: return th::asin(x); case 11: return th::acos(x); case 12: return th::atan(x); case 13: return th::sinh(x); case 14: return th::cosh(x);
	case 15: return th::tanh(x); case 16: return th::asinh(x); case 17: return th::acosh(x); case 18: return th::atanh(x); case 19: return th::sigmoid(x); case 20: return th::sinc(x); case 21: return th::powf(x, y);
	case 22: return th::root(x, n); case 23: return th::pow(x, n); case 24: return th::atan2(x, y); case 25: return th::floor(x); case 26: return th::fract(x); case 27: return th::radians(x); case 28: return th::degrees(x);
	case 29: return th::square(x); case 30: return th::cube(x); case 31: return th::abs(x); case 32: return th::max(x, y); case 33: return th::min(x, y); case 34: return th::clamp(x, std::min(y, (real) -y), std::max(y, (real) -y));
	case 35: return x == 0 ? (real) 0 : th::coth(x); default: return th::cot(x); } });
	const ld SQ = HW(0.0L, 1e-8L), LG = HW(0.0L, 4e-8L);
	switch (f) {
	case 0: w = sqrtl(X); rel = 4 * U + SQ; break; case 1: w = cbrtl(X); rel = 8 * U + 2e-8L; break; case 2: w = expl(X); rel = 60 * U; break; case 3: w = expm1l(X); rel = 1e-11L + 400 * U; a = 16 * U; break;
	case 4: w = logl(X); a = 8 * U + LG; break; case 5: w = log2l(X); a = 8 * U + LG; break; case 6: w = log10l(X); a = 8 * U + LG; break;
	case 7: w = sinl(X); a = 4 * U + HW(X == 0 ? 0 : fabsl(X) * U, 1e-10L + fabsl(X) * U * 2); break; case 8: w = cosl(X); a = 4 * U + HW(fabsl(X) * U, 1e-10L + fabsl(X) * U * 2); break;
	case 9: w = tanl(X); if (fabsl(cosl(X)) < 0.05) t.discard(); rel = HW(1e3L * U, 1e-8L + 1e3L * U); a = HW(16 * U, 1e-8L + 32 * U); break; case 36: w = 1 / tanl(X); if (fabsl(sinl(X)) < 0.05) t.discard(); rel = HW(1e3L * U, 1e-8L + 1e3L * U); a = HW(16 * U, 1e-8L + 32 * U); break;
	case 10: w = asinl(X); a = 1.5L * ARC; break; case 11: w = acosl(X); a = 1.5L * ARC; break; case 12: w = atanl(X); a = ARC; break;
	case 13: w = sinhl(X); rel = 70 * U; a = 8 * U; break; case 14: w = coshl(X); rel = 70 * U; break; case 15: w = tanhl(X); a = 40 * U; break;
	case 16: w = asinhl(X); a = X > -2 ? 40 * U + LG : 1e3L * U * fabsl(X) + LG; break; case 17: w = acoshl(X); a = 200 * U + LG + SQ * 4; break; case 18: w = atanhl(X); a = 60 * U + LG; break; case 19: w = 1 / (1 + expl(-X)); a = 20 * U; break;
	case 20: w = X == 0 ? 1 : sinl(PIl * X) / (PIl * X); a = 16 * U + HW(0, 1e-9L); break; case 21: w = powl(X, Y); rel = 200 * U + 40 * LG; break; case 22: w = powl(X, 1.0L / n); rel = 16 * U + 1.2e-8L; break; case 23: w = powl(X, n); rel = 40 * U; break;
	case 24: w = atan2l(X, Y); a = 1.5L * ARC; break; case 25: w = floorl(X); rel = 0; break; case 26: w = fabsl(X - floorl(X)); rel = 0; a = 2 * U; if (X < 0) return; break; case 27: w = X * PIl / 180; break; case 28: w = X * 180 / PIl; break;
	case 29: w = X * X; break; case 30: w = X * X * X; break; case 31: w = fabsl(X); rel = 0; break; case 32: w = std::max(X, Y); rel = 0; a = 2 * U * (fabsl(X) + fabsl(Y)); break; case 33: w = std::min(X, Y); rel = 0; a = 2 * U * (fabsl(X) + fabsl(Y)); break;
	case 34: { ld lo = std::min(Y, -Y), hi = -lo; w = X < lo ? lo : X > hi ? hi : X; a = 4 * U * (fabsl(X) + fabsl(Y)); break; } default: if (fabsl(X) < 0.05) return; w = 1 / tanhl(X); rel = 400 * U;
	}
	t.approx(g, w, rel, a, N[f]); t.check(err == 0, std::string(N[f]) + " reported an error");
}

// ------------------------------------------------------------ linear algebra

LAW(vectors_and_matrices, 20000) {
	size_t n = t.n(1, 5); auto x = rv<th::vec<real>>(t, n, -5, 5), y = rv<th::vec<real>>(t, n, -5, 5); auto X = L(x), Y = L(y); t.note("x", str(X)); t.note("y", str(Y)); t.nontrivial(n > 1);
	ld dot = 0, mag = 0, sq = 0, ad = 0; for (size_t i = 0; i < n; ++i) { dot += X[i] * Y[i]; mag += fabsl(X[i] * Y[i]); sq += X[i] * X[i]; ad += (X[i] - Y[i]) * (X[i] - Y[i]); }
	t.close(x * y, dot, 2 * n * U * mag, "scalar product"); t.approx(x.norm(), sqrtl(sq), 8 * U + HW(0, 1e-8L), HW(0, 1e-8L), "norm"); t.approx(alg::euclidean_distance(x, y), sqrtl(ad), 8 * U + HW(0, 1e-8L), HW(0, 1e-8L), "distance");
	for (size_t i = 0; i < n; ++i) { t.close((x + y)[i], X[i] + Y[i], 2 * U * 10, "sum"); t.close((x - y)[i], X[i] - Y[i], 2 * U * 10, "difference"); }
	// a diagonally dominant system
	th::mat<real> A((unsigned) n, (unsigned) n); std::vector<ld> a(n * n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { A(i, j) = rr(t, -1, 1) + (i == j ? (real) (t.coin() ? 2.0 * n : -2.0 * n) : 0); a[i * n + j] = A(i, j); }
	t.note("A", str(a)); th::vec<real> b; b.resize(n); std::vector<ld> B(n, 0); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) B[i] += a[i * n + j] * X[j]; b[i] = (real) B[i]; }
	const ld e = 200 * n * U * 5; int err; auto s = with_errno(err, [&] { return alg::solve(A, b); }); t.check(err == 0, "solve reported an error"); for (size_t i = 0; i < n; ++i) t.close(s[i], X[i], e, "solution of a system");
	auto p = A * x; for (size_t i = 0; i < n; ++i) t.close(p[i], B[i], 4 * n * U * 80, "matrix times vector");
	auto inv = with_errno(err, [&] { return alg::inverse(A); }); t.check(err == 0, "inverse reported an error"); th::mat<real> I = A * inv; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t.close(I(i, j), i == j, e, "A A^-1");
	// determinant by elimination in extended precision (no pivoting needed)
	std::vector<ld> m = a; ld det = 1; for (size_t k = 0; k < n; ++k) { det *= m[k * n + k]; for (size_t i = k + 1; i < n; ++i) { ld q = m[i * n + k] / m[k * n + k]; for (size_t j = k; j < n; ++j) m[i * n + j] -= q * m[k * n + j]; } }
	t.approx(alg::det(A), det, 100 * n * U, 0, "determinant");
	th::mat<real> Lo, Up; alg::decompose_lu(A, Lo, Up); auto LU = Lo * Up; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t.close(LU(i, j), a[i * n + j], 100 * n * U, "L U");
	auto S = alg::mat_transpose_mul(A, A); auto C = with_errno(err, [&] { return alg::decompose_cholesky(S); }); t.check(err == 0, "Cholesky decomposition reported an error"); auto CC = alg::mat_mul_transpose(C, C); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t.close(CC(i, j), S(i, j), 400 * n * n * U + HW(0, 1e-6L), "Cholesky factor");
	ld tr = 0; for (size_t i = 0; i < n; ++i) tr += a[i * n + i]; t.close(alg::trace(A), tr, 40 * n * U, "trace");
	t.check(A == th::mat<real>(A) && alg::transpose(alg::transpose(A)) == A, "transposed twice");
}

LAW(rotations, 10000) {
	real w = rr(t, -7, 7); t.note("angle", (ld) w); t.nontrivial(w != 0); const ld e = 16 * U + HW(0, 1e-9L);
	auto R = alg::rotation_3d_zaxis<th::mat<real, 3, 3>>(w); t.close(R(0, 0), cosl(w), e, "rotation"); t.close(R(1, 0), sinl(w), e, "rotation"); t.close(R(2, 2), 1, 0, "rotation");
	th::quat<real> q = th::quat<real>::rotation(w, th::vec<real, 3>({(real) 0, (real) 0, (real) 1})); auto v = q.transform(th::vec<real, 3>({(real) 1, (real) 0, (real) 0})); t.close(v[0], cosl(w), 4 * e, "rotation by a quaternion"); t.close(v[1], sinl(w), 4 * e, "rotation by a quaternion");
}

// ------------------------------------------------------------------- complex

LAW(complex_numbers, 30000) {
	cplx z(rr(t, -4, 4), rr(t, -4, 4)), w(rr(t, -4, 4), rr(t, -4, 4)); cld Z(z.a, z.b), W(w.a, w.b); t.note("z", std::vector<double>{(double) z.a, (double) z.b}); t.note("w", std::vector<double>{(double) w.a, (double) w.b}); t.nontrivial(z.b != 0);
	auto is = [&](cplx g, cld x, ld e, const char* m) { t.close(g.a, x.real(), e, m); t.close(g.b, x.imag(), e, m); };
	is(z + w, Z + W, 20 * U, "sum"); is(z - w, Z - W, 20 * U, "difference"); is(z * w, Z * W, 200 * U, "product"); if (std::abs(W) > 0.2L) is(z / w, Z / W, 2000 * U, "quotient");
	t.approx(z.norm(), std::abs(Z), 8 * U + HW(0, 1e-8L), HW(0, 1e-8L), "modulus");
	ld big = expl(fabsl(Z.real())) + expl(fabsl(Z.imag())); const ld pe = HW(0, 1e-8L); is(th::exp(z), std::exp(Z), (100 * U + pe) * big, "exp"); is(th::sin(z), std::sin(Z), (200 * U + pe) * big, "sin"); is(th::cos(z), std::cos(Z), (200 * U + pe) * big, "cos");
	if (std::abs(Z) > 0.1L && (fabsl(Z.imag()) > 0.1L || Z.real() > 0.1L)) { is(th::ln(z), std::log(Z), 4 * ARC + HW(0, 1e-7L), "ln"); t.close(th::sqrt(z).a, std::sqrt(Z).real(), std::sqrt(U) * 4e-4L + 40 * U + HW(0, 1e-7L) + (SINGLE ? 2e-4L : 1e-9L), "sqrt"); }
	th::polynomial<real> p = {rr(t, -4, 4), rr(t, -4, 4), 1}; ld b = p[1], c = p[0], dl = b * b - 4 * c; t.note("c", c); t.note("b", b); auto r = p.quadratic_roots(); cld s = cld(r[0].a, r[0].b) + cld(r[1].a, r[1].b);
	if (fabsl(c) > 0.01L) { t.close(s.real(), -b, 100 * U * (4 + fabsl(b)) + HW(0, 10 * sqrtl(U)), "sum of the roots"); if (dl > 0.1L) t.close(std::max(r[0].a, r[1].a), (-b + sqrtl(dl)) / 2, 1e3L * U + HW(0, 1e-7L), "larger root"); if (dl < -0.1L) t.close(fabsl(r[0].b), sqrtl(-dl) / 2, 1e3L * U + HW(0, 1e-7L), "imaginary part of a root"); }
}

// --------------------------------------------------- differentiation, calculus

LAW(automatic_differentiation, 30000) {
	real x = rr(t, -2, 2), y = rr(t, 0.5, 2); t.note("x", (ld) x); t.note("y", (ld) y); t.nontrivial(); const ld X = x, Y = y, e = 400 * U + HW(0, 1e-6L);
	th::dual d = th::exp(th::sin(th::dual(x, 1)) * y) / y; ld s = sinl(X), c = cosl(X), E = expl(s * Y); t.approx(d.Re(), E / Y, e, e, "value"); t.approx(d.Dual(), c * E, e, e, "derivative");
	th::dual2 q = th::ln(th::dual2(y, 1, 0)) * th::sqrt(th::dual2(y, 1, 0)); ld r = sqrtl(Y), l = logl(Y); t.close(q.Re(), l * r, e, "value"); t.close(q.Dual1(), 1 / r + l / (2 * r), e, "first derivative"); t.close(q.Dual2(), -l / (4 * r * Y), e, "second derivative");
	auto g = th::autodiff::gradient([](th::autodiff::dvec_t<2> v) { return v[0] * v[0] * v[1] + th::cos(v[1]); }, th::vec<real, 2>({x, y})); t.close(g[0], 2 * X * Y, e, "gradient"); t.close(g[1], X * X - sinl(Y), e, "gradient");
	auto f = [](real z) { return z * z * z; }; t.close(th::deriv(f, x), 3 * X * X, cbrtl(U) * 40 + 0.02L * SINGLE, "derivative by differences");
}

LAW(polynomials_and_integrals, 20000) {
	size_t n = t.n(0, 5); th::polynomial<real> p; p.coeff.resize(n + 1); for (size_t i = 0; i <= n; ++i) p.coeff[i] = rr(t, -3, 3); real x = rr(t, -2, 2), a = rr(t, -2, 2), b = rr(t, -2, 2); t.note("p", str(L(p.coeff))); t.note("x", (ld) x); t.note("a", (ld) a); t.note("b", (ld) b); t.nontrivial(n > 1);
	ld v = 0, d = 0, sc = 0, in = 0; for (size_t i = n + 1; i--;) { ld c = p.coeff[i]; v += c * powl(x, i); sc += fabsl(c) * powl(2, i) * (i + 1); if (i) d += c * i * powl(x, i - 1); in += c / (i + 1) * (powl(b, i + 1) - powl(a, i + 1)); }
	const ld e = 40 * U * (1 + sc) * 4; t.close(p(x), v, e, "value of a polynomial"); t.close(th::deriv(p)(x), d, e, "derivative of a polynomial"); t.close(th::integral(p, a, b), in, e, "integral of a polynomial");
	auto f = [&](real z) { return p(z); }; t.close(th::integral_legendre(f, a, b, 8), in, 10 * e + 1e-13L * sc, "Gauss-Legendre quadrature"); if (n <= 3) t.close(th::integral_simpson(f, a, b, 100), in, 100 * e, "Simpson's rule"); if (n <= 1) { t.close(th::integral_trapezoid(f, a, b, 100), in, 100 * e, "trapezoid rule"); t.close(th::integral_midpoint(f, a, b, 100), in, 100 * e, "midpoint rule"); }
	// interpolation through points of the polynomial
	std::vector<th::vec<real, 2>> pts; for (size_t i = 0; i <= n; ++i) { real xi = (real) i / 2 - 1; pts.push_back({xi, p(xi)}); } t.close(th::lagrange_polynomial(pts)(x), v, 2000 * U * (1 + sc) * 10, "interpolating polynomial");
	if (n >= 2) { th::spline sp(pts); for (auto& q : pts) t.close(sp(q[0]), q[1], 400 * U * (1 + sc), "spline at a knot"); }
}

LAW(differential_equations, 4000) {
	real k = rr(t, -2, 2), x0 = rr(t, -3, 3); unsigned m = (unsigned) t.i(1, 16); real h = (real) 1 / (16 * m); t.note("k", (ld) k); t.note("x0", (ld) x0); NOTE(m); t.nontrivial(k != 0 && x0 != 0);
	auto s = th::ode::solve_rk4([k](real, real x) { return k * x; }, x0, (real) 0, (real) 1, h); ld w = (ld) x0 * expl(k), e = fabsl(x0) * expl(2) * (powl(2 * h, 4) + 40 * 16 * m * U); t.close(s.x[s.x.size() - 1], w, e, "solution at the final time"); t.close(s.t[s.t.size() - 1], 1, 16 * 16 * U, "final time");
}

// ---------------------------------------------------------- data and chance

LAW(data_sets, 20000) {
	size_t n = t.n(3, 30); auto x = rv<std::vector<real>>(t, n, -10, 10); for (size_t i = 0; i < n; ++i) x[i] += (real) (3 * i); real a = rr(t, -5, 5), b = rr(t, -5, 5); auto X = L(x); t.note("x", str(X)); t.nontrivial();
	ld s = 0, q = 0, mg = 0; for (ld v : X) { s += v; mg += fabsl(v); } ld m = s / n; for (ld v : X) q += (v - m) * (v - m); if (q < 1) t.discard();
	t.close(th::sum(x), s, n * U * mg, "sum"); t.close(th::sum_compensated(x), s, 2 * U * fabsl(s) + n * (U * U + 4e-19L) * mg * 4, "compensated sum"); t.close(th::sum_pairwise(x), s, n * U * mg, "pairwise sum");
	t.close(th::stats::mean(x), m, 2 * U * mg, "mean"); t.close(th::stats::variance(x), q / (n - 1), 200 * U * mg * mg / n, "variance"); t.approx(th::stats::stdev(x), sqrtl(q / (n - 1)), 100 * U * mg * mg / n / (q / (n - 1)) + HW(0, 1e-8L), HW(0, 1e-8L), "standard deviation");
	std::vector<real> y(n); for (size_t i = 0; i < n; ++i) y[i] = a + b * x[i]; th::regression::linear_model M(x, y); ld cond = mg * mg / n / q * 10 + 10; t.close(M.B, b, 200 * U * cond * (1 + fabsl(b) + fabsl(a)), "slope"); t.close(M.A, a, 200 * U * cond * (1 + mg / n) * (1 + fabsl(b) + fabsl(a)), "intercept");
	th::histogram H(x, 5); t.eq((unsigned) H.number(), (unsigned) n, "entries of a histogram"); unsigned tot = 0; for (unsigned i = 0; i < 5; ++i) tot += (unsigned) H[i]; t.eq(tot, (unsigned) n, "sum of the bins"); t.close(H.mean(), m, 8 * n * U * mg / n, "mean of a histogram");
}

LAW(distributions, 20000) {
	real x = rr(t, -5, 5), m = rr(t, -2, 2), s = (real) t.r(0.25, 4); t.note("x", (ld) x); t.note("m", (ld) m); t.note("s", (ld) s); t.nontrivial(); const ld X = x, M = m, S = s, z = (X - M) / S, e = 400 * U;
	t.approx(th::distribution::gaussian(x, m, s), expl(-z * z / 2) / (S * sqrtl(2 * PIl)), e * (1 + z * z) + HW(0, 1e-7L), 1e-37L, "gaussian"); t.approx(th::distribution::cauchy(x, m, s), S / PIl / ((X - M) * (X - M) + S * S), e, 0, "cauchy"); if (x > 0) t.approx(th::distribution::exponential(x, s), S * expl(-S * X), e + 40 * U * S * X, 0, "exponential");
	unsigned n = (unsigned) t.n(1, 20), k = (unsigned) t.n(0, n); real p = (real) t.r(0.1, 0.9); NOTE(n); NOTE(k); t.note("p", (ld) p); t.approx(th::distribution::binomial(k, n, p), expl(lgammal(n + 1.0L) - lgammal(k + 1.0L) - lgammal(n - k + 1.0L)) * powl(p, k) * powl(1 - (ld) p, n - k), 100 * n * U, 0, "binomial");
	real g = (real) t.r(0.25, 12); t.note("g", (ld) g); t.approx(th::special::gamma(g), tgammal(g), SINGLE ? 2e-4L : HW(1e-8L, 1e-6L), 0, "Gamma function");
}

LAW(transforms, 3000) {
	size_t l = t.n(0, 6), n = (size_t) 1 << l; th::cvec x; x.resize(n); std::vector<cld> X(n); ld mg = 0; for (size_t i = 0; i < n; ++i) { x[i] = cplx(rr(t, -3, 3), rr(t, -3, 3)); X[i] = cld(x[i].a, x[i].b); mg += std::abs(X[i]); } NOTE(n); t.nontrivial(n > 1);
	auto k = th::signal::fft(x); auto b = th::signal::ifft(k); const ld e = 20 * (l + 1) * U * mg * (1 + HW(n * 0.1L, n)) + HW(0, 1e-6L); for (size_t j = 0; j < n; ++j) { cld w = 0; for (size_t i = 0; i < n; ++i) w += X[i] * std::polar(1.0L, -2 * PIl * ((i * j) % n) / n); t.close(k[j].a, w.real(), e, "transform"); t.close(k[j].b, w.imag(), e, "transform"); t.close(b[j].a, X[j].real(), e, "inverse transform"); t.close(b[j].b, X[j].imag(), e, "inverse transform"); }
}

LAW(random_numbers, 4000) {
	uint64_t seed = t.u64(); real a = rr(t, -5, 5), d = (real) t.r(0.125, 10), b = a + d; NOTE(seed); t.note("a", (ld) a); t.note("b", (ld) b); t.nontrivial(); th::PRNG g = th::PRNG::xoshiro(seed); ld s = 0, s2 = 0; const int N = 400; bool lo = false, hi = false;
	for (int i = 0; i < N; ++i) { real u = th::rand_uniform(a, b, g); t.check(u >= a && u <= b, "a uniform number outside of the interval"); lo |= u < a + d / 2; hi |= u > a + d / 2; real z = th::rand_gaussian(a, d, g); t.check(std::isfinite((double) z), "a Gaussian number is not finite"); ld q = ((ld) z - a) / d; s += q; s2 += q * q; real e = th::rand_exponential(d, g); t.check(e >= 0 && std::isfinite((double) e), "an exponential number is not a positive number"); }
	t.check(lo && hi, "uniform numbers on one side only"); t.close(s / N, 0, 8 / sqrtl(N), "mean of Gaussian numbers"); t.close(s2 / N, 1, 8 * sqrtl(2.0L / N), "variance of Gaussian numbers");
}

LAW(roots_and_extrema, 10000) {
	real r = rr(t, -3, 3), k = (real) t.r(0.25, 2), q = (real) t.r(0, 0.25); const real tol = SINGLE ? (real) 1e-4 : (real) 1e-9; t.note("r", (ld) r); t.note("k", (ld) k); t.note("q", (ld) q); t.nontrivial();
	auto f = [=](real x) { real d = x - r; return k * d + q * d * d * d; }; auto df = [=](real x) { real d = x - r; return k + 3 * q * d * d; }; const ld e = 2 * tol / k * 4 + 4 * tol + 40 * U; int err; real x;
	x = with_errno(err, [&] { return th::root_bisect(f, r - (real) 1.25, r + (real) 2, tol); }); t.close(x, r, e, "bisection"); t.check(err == 0, "bisection reported an error");
	x = with_errno(err, [&] { return th::root_itp(f, r - (real) 1.25, r + (real) 2, tol); }); t.close(x, r, e, "ITP"); t.check(err == 0, "ITP reported an error");
	th::real_function F = f, DF = df; x = with_errno(err, [&] { return th::root_newton(F, DF, r + (real) 0.25, tol); }); t.close(x, r, e, "Newton's method"); t.check(err == 0, "Newton's method reported an error");
}
// ------------------------------------------ algorithms with thresholds of their own

LAW(extrema_without_tolerance, 6000) {
	real c = t.coin() ? rr(t, -3, 3) : (real) t.rlogs(-2, SINGLE ? 3 : 6), k = (real) t.r(0.25, 4); real a = c - (real) t.r(0.25, 2), b = c + (real) t.r(0.25, 2); t.note("c", (ld) c); t.note("k", (ld) k); t.note("a", (ld) a); t.note("b", (ld) b); t.nontrivial(); if (!(a < c && c < b)) t.discard(); const ld e = 4e-8L + 40 * th::MACH_EPSILON * (ld) std::max(std::fabs(a), std::fabs(b)) + HW(0, 1e-6L); int err; real x;
	th::real_function f = [=](real z) { return k * (z - c) * (z - c); }, g = [=](real z) { return -k * (z - c) * (z - c); }, df = [=](real z) { return 2 * k * (z - c); }, dg = [=](real z) { return -2 * k * (z - c); }, d2 = [=](real) { return 2 * k; }, e2 = [=](real) { return -2 * k; };
	auto is = [&](const char* m) { t.check(err == 0, std::string(m) + " reported an error"); t.close(x, c, e, m); };
	x = with_errno(err, [&] { return th::minimize_goldensection(f, a, b); }); is("golden section, minimum"); x = with_errno(err, [&] { return th::maximize_goldensection(g, a, b); }); is("golden section, maximum");
	x = with_errno(err, [&] { return th::minimize_bisection(f, df, a, b); }); is("bisection, minimum"); x = with_errno(err, [&] { return th::maximize_bisection(g, dg, a, b); }); is("bisection, maximum");
	x = with_errno(err, [&] { return th::minimize_newton(f, df, d2, b); }); is("Newton's method, minimum"); x = with_errno(err, [&] { return th::maximize_newton(g, dg, e2, a); }); is("Newton's method, maximum");
	x = with_errno(err, [&] { return th::root_bisect(df, a, b); }); is("bisection, root"); x = with_errno(err, [&] { return th::root_itp(df, a, b); }); is("ITP, root");
}

LAW(eigenvalues, 6000) {
	real w = rr(t, -3, 3), l = (real) (t.coin() ? 1 : -1) * (real) t.r(2, 6), m = l * (real) t.r(-0.5, 0.5), tol = SINGLE ? (real) 1e-5 : (real) 1e-9; t.note("w", (ld) w); t.note("l", (ld) l); t.note("m", (ld) m); t.nontrivial(w != 0); if (fabsl(m) < 0.1L) t.discard(); ld c = cosl(w), s = sinl(w); const ld e = 200 * (ld) tol + HW(0, 1e-6L);
	th::mat<real, 2, 2> A; A(0, 0) = (real) (l * c * c + m * s * s); A(1, 1) = (real) (l * s * s + m * c * c); A(0, 1) = A(1, 0) = (real) ((l - m) * c * s); th::vec<real, 2> x({(real) (c - 0.4L * s), (real) (s + 0.4L * c)}), y({(real) (0.4L * c - s), (real) (0.4L * s + c)}), v, u; int err; real r;
	r = with_errno(err, [&] { return alg::eigenvalue_power(A, x, tol); }); t.check(err == 0, "the power method reported an error"); t.close(r, l, e, "power method"); r = with_errno(err, [&] { return alg::eigenpair_power(A, x, v, tol); }); t.check(err == 0, "the power method reported an error"); t.close(r, l, e, "power method"); t.close(fabsl(v[0] * c + v[1] * s), 1, e, "eigenvector of the power method");
	r = with_errno(err, [&] { return alg::eigenvalue_inverse(A, y, tol); }); t.check(err == 0, "inverse iteration reported an error"); t.close(r, m, e, "inverse iteration"); r = with_errno(err, [&] { return alg::eigenpair_inverse(A, y, u, tol); }); t.check(err == 0, "inverse iteration reported an error"); t.close(r, m, e, "inverse iteration"); t.close(fabsl(u[1] * c - u[0] * s), 1, e, "eigenvector of inverse iteration");
	r = with_errno(err, [&] { return alg::eigenvalue_rayleigh(A, (real) (l * 1.05L), x, SINGLE ? (real) 2e-3 : (real) 1e-6); }); t.check(err == 0, "Rayleigh iteration reported an error"); t.check(fabsl(r - l) < e || fabsl(r - m) < e, "Rayleigh iteration"); t.close(alg::rayleigh_quotient(A, v), l, e, "Rayleigh quotient");
}

LAW(quadratures, 6000) {
	real a = rr(t, -2, 2), b = a + (real) t.rnz(0.25, 3), k = (real) t.r(0.25, 1.5); t.note("a", (ld) a); t.note("b", (ld) b); t.note("k", (ld) k); t.nontrivial(); auto f = [k](real x) { return th::exp(k * x); }; const ld w = (expl((ld) k * b) - expl((ld) k * a)) / k, M = (expl((ld) k * a) + expl((ld) k * b)) * (fabsl(a) + fabsl(b) + 1), h = fabsl((ld) b - a) * k, D = fabsl((ld) b - a); const ld r = 400 * U * M + HW(0, 1e-7L * M);
	unsigned n = (unsigned) t.n(10, 200); NOTE(n); t.close(th::integral_midpoint(f, a, b, n), w, r + M * D * h * h / n / n / 12, "midpoint rule"); t.close(th::integral_trapezoid(f, a, b, n), w, r + M * D * h * h / n / n / 6, "trapezoid rule"); t.close(th::integral_simpson(f, a, b, n), w, r + M * D * powl(h / n, 4) / 10, "Simpson's rule");
	t.close(th::integral_romberg(f, a, b, 8), w, r + 1e-12L * M, "Romberg's method"); int err; real tol = SINGLE ? (real) 1e-3 : (real) 1e-9; real v = with_errno(err, [&] { return th::integral_romberg_tol(f, a, b, tol); }); t.check(err == 0, "Romberg's method reported an error"); t.close(v, w, r + 2 * (ld) tol, "Romberg's method with a tolerance");
	t.close(th::integral_legendre(f, a, b, 16), w, r + 1e-13L * M, "Gauss-Legendre quadrature"); t.close(th::integral(f, a, b), w, r + 1e-9L * M, "default quadrature");
	auto q = [k](real x) { return x * x * k; }; t.approx(th::integral_laguerre(q, 8), 2 * (ld) k, 400 * U, 0, "Gauss-Laguerre quadrature"); t.approx(th::integral_hermite(q, 8), sqrtl(PIl) * k / 2, 400 * U, 0, "Gauss-Hermite quadrature");
}

LAW(all_solvers, 3000) {
	real k = rr(t, -2, 2), t0 = t.coin() ? (real) 0 : rr(t, -4, 4), T0 = (real) t.r(0.25, 2); unsigned m = (unsigned) t.n(32, 400); real tf = t0 + T0, h = (tf - t0) / m; th::vec<real, 2> x0({rr(t, -2, 2), rr(t, -2, 2)}); t.note("k", (ld) k); t.note("t0", (ld) t0); t.note("tf", (ld) tf); NOTE(m); t.nontrivial(); const ld D = (ld) tf - t0, H = h, R = fabsl(x0[0]) + fabsl(x0[1]), W = fabsl(k) + 0.5L; ld c = cosl(k * D), s = sinl(k * D), g0 = x0[0] * c - x0[1] * s, g1 = x0[0] * s + x0[1] * c; const ld rnd = 40 * m * U * (R + 1) * 4 + fabsl(k) * R * 4 * U * (fabsl(t0) + fabsl(tf)) * m;
	auto f = [k](real, const th::vec<real, 2>& x) { return th::vec<real, 2>({-k * x[1], k * x[0]}); }; const char* N[] = {"euler", "midpoint", "heun", "rk2", "rk4", "k38", "adams2", "adams3", "adams4", "adams5"}; int j = (int) t.i(0, 5); t.label(N[j]); t.note("method", std::string(N[j])); int err;
	auto sol = with_errno(err, [&] { switch (j) { case 0: return th::ode::solve_euler(f, x0, t0, tf, h); case 1: return th::ode::solve_midpoint(f, x0, t0, tf, h); case 2: return th::ode::solve_heun(f, x0, t0, tf, h); case 3: return th::ode::solve_rk2(f, x0, t0, tf, h); case 4: return th::ode::solve_rk4(f, x0, t0, tf, h); default: return th::ode::solve_k38(f, x0, t0, tf, h); } });
	t.check(err == 0, "a solver reported an error"); int p = j == 0 ? 1 : j < 4 ? 2 : 4; ld e = rnd + 2 * R * D * expl(W * D * (j == 0)) * powl(W, p + 1) * powl(H, p); size_t n = sol.t.size(); t.check(n == m + 1u || n == m + 2u || n == m, "number of steps"); t.close(sol.t[n - 1], tf, (4 + m) * U * (fabsl(t0) + fabsl(tf)), "final time"); t.close(sol.x[n - 1][0], g0, e, "first variable"); t.close(sol.x[n - 1][1], g1, e, "second variable");
	for (size_t i = 1; i + 1 < n; ++i) t.close((ld) sol.t[i] - sol.t[i - 1], H, 8 * U * (fabsl(t0) + fabsl(tf)) , "step");
}

static th::autodiff::dvec_t<2> system2(th::autodiff::dvec_t<2> v) { th::autodiff::dvec_t<2> r = v; r[0] = v[0] * v[0] + v[1] * v[1] - th::multidual<2>((real) 4); r[1] = v[0] - v[1]; return r; }
static th::multidual<2> bowl(th::autodiff::dvec_t<2> v) { return (v[0] - (real) 1) * (v[0] - (real) 1) + (v[1] + (real) 0.5) * (v[1] + (real) 0.5) * (real) 2; }
LAW(many_variables, 3000) {
	real tol = SINGLE ? (real) 1e-4 : (real) 1e-9; th::vec<real, 2> g({(real) t.r(0.5, 3), (real) t.r(0.5, 3)}), h({rr(t, -3, 3), rr(t, -3, 3)}); t.note("x", (ld) g[0]); t.note("y", (ld) g[1]); t.note("x'", (ld) h[0]); t.note("y'", (ld) h[1]); t.nontrivial(); int err; const ld e = 8 * (ld) tol;
	auto r = with_errno(err, [&] { return th::multiroot_newton<2>(system2, g, tol); }); t.check(err == 0, "Newton's method in two variables reported an error"); t.close(r[0], sqrtl(2), e, "root"); t.close(r[1], sqrtl(2), e, "root");
	auto m = with_errno(err, [&] { return th::multi_minimize_grad<2>(bowl, h, (real) -0.1, tol); }); t.check(err == 0, "gradient descent reported an error"); t.close(m[0], 1, e, "minimum"); t.close(m[1], -0.5L, e, "minimum");
	m = with_errno(err, [&] { return th::multi_minimize_lingrad<2>(bowl, h, tol); }); t.check(err == 0, "gradient descent with a line search reported an error"); t.close(m[0], 1, 2 * e, "minimum by line search"); t.close(m[1], -0.5L, 2 * e, "minimum by line search");
}

LAW(p_values, 6000) {
	unsigned n = 2 * (unsigned) t.n(1, 40); real c = (real) (n * t.r(0.2, 2.5)); NOTE(n); t.note("chi squared", (ld) c); t.nontrivial(); ld x = (ld) c / 2, s = 0, q = 1; for (unsigned k = 0; k < n / 2; ++k) { s += q; q *= x / (k + 1); } int err; real p = with_errno(err, [&] { return th::stats::pvalue_chi_squared(c, n); }); t.check(err == 0, "the p-value reported an error"); t.close(p, expl(-x) * s, SINGLE ? 2e-4L + HW(0, 1e-4L) : HW(1e-7L, 1e-5L), "p-value");
}

LAW(rotations_and_distances, 10000) {
	size_t n = t.n(1, 5); auto x = rv<th::vec<real>>(t, n, -5, 5), y = rv<th::vec<real>>(t, n, -5, 5); auto X = L(x), Y = L(y); t.note("x", str(X)); t.note("y", str(Y)); t.nontrivial(n > 1); ld l1 = 0, mx = 0, cb = 0, l3 = 0; for (size_t i = 0; i < n; ++i) { ld d = fabsl(X[i] - Y[i]); l1 += d; mx = std::max(mx, d); l3 += d * d * d; if (fabsl(X[i]) + fabsl(Y[i]) > 0) cb += d / (fabsl(X[i]) + fabsl(Y[i])); }
	t.close(alg::manhattan_distance(x, y), l1, 40 * n * U, "manhattan distance"); t.close(alg::chebyshev_distance(x, y), mx, 40 * U, "chebyshev distance"); t.close(alg::canberra_distance(x, y), cb, 40 * n * U, "canberra distance"); if (mx > 0.1L) t.approx(alg::minkowski_distance(x, y, 3), cbrtl(l3), 200 * n * U + 4e-8L + HW(0, 1e-6L), 0, "minkowski distance");
	real w = rr(t, -6, 6); th::vec<real, 3> ax({rr(t, -1, 1), rr(t, -1, 1), (real) t.rnz(0.25, 1)}), v({rr(t, -3, 3), rr(t, -3, 3), rr(t, -3, 3)}); t.note("w", (ld) w); ld an = sqrtl((ld) ax[0] * ax[0] + (ld) ax[1] * ax[1] + (ld) ax[2] * ax[2]), k[3], dt = 0, c = cosl(w), s = sinl(w); for (int i = 0; i < 3; ++i) { k[i] = ax[i] / an; dt += k[i] * v[i]; } th::quat<real> q = th::quat<real>::rotation(w, ax); auto r = q.transform(v); auto R = alg::rotation_3d<th::mat<real, 3, 3>>(w, th::vec<real, 3>({(real) k[0], (real) k[1], (real) k[2]})); auto r2 = R * v; const ld e = 400 * U + HW(0, 1e-6L);
	for (int i = 0; i < 3; ++i) { int a = (i + 1) % 3, b = (i + 2) % 3; ld z = v[i] * c + (k[a] * v[b] - k[b] * v[a]) * s + k[i] * dt * (1 - c); t.close(r[i], z, e, "rotation by a quaternion"); t.close(r2[i], z, e, "rotation by a matrix"); }
	th::phasor<real> p((real) t.r(0.25, 4), rr(t, -3, 3)), u((real) t.r(0.25, 4), rr(t, -3, 3)); cld P = std::polar((ld) p.modulus, (ld) p.phase), Q = std::polar((ld) u.modulus, (ld) u.phase); auto cart = [](const th::phasor<real>& z) { return std::polar((ld) z.modulus, (ld) z.phase); }; t.note("p", (ld) p.phase); t.note("q", (ld) u.phase); t.close(std::abs(cart(p * u) - P * Q), 0, 200 * U, "product of phasors"); t.close(std::abs(cart(p / u) - P / Q), 0, 400 * U, "quotient of phasors"); if (std::abs(P + Q) > 0.25L) t.close(std::abs(cart(p + u) - (P + Q)), 0, 8 * ARC * 8 + HW(0, 1e-6L), "sum of phasors");
}

LAW(fits, 6000) {
	size_t n = t.n(4, 40); std::vector<real> x(n), y(n), sg(n); real a = rr(t, -3, 3), b = rr(t, -3, 3); for (size_t i = 0; i < n; ++i) { x[i] = (real) i / 4 + rr(t, -0.1, 0.1); y[i] = a + b * x[i] + rr(t, -0.5, 0.5); sg[i] = (real) t.r(0.25, 2); } auto X = L(x), Y = L(y); t.note("x", str(X)); t.note("y", str(Y)); t.nontrivial(); ld sx = 0, sy = 0, xx = 0, xy = 0, sw = 0, wx = 0, wy = 0, wxx = 0, wxy = 0; for (size_t i = 0; i < n; ++i) { sx += X[i] / n; sy += Y[i] / n; ld w = 1 / ((ld) sg[i] * sg[i]); sw += w; wx += w * X[i]; wy += w * Y[i]; wxx += w * X[i] * X[i]; wxy += w * X[i] * Y[i]; } for (size_t i = 0; i < n; ++i) { xx += (X[i] - sx) * (X[i] - sx); xy += (X[i] - sx) * (Y[i] - sy); }
	ld B = xy / xx, A = sy - B * sx, q = 0; for (size_t i = 0; i < n; ++i) { ld d = Y[i] - A - B * X[i]; q += d * d; } const ld S = n * (1 + fabsl(a) + fabsl(b) * n / 4), e = 4000 * U * S + HW(0, 1e-6L * S); int err; th::regression::linear_model m; with_errno(err, [&] { m.fit(x, y); return 0; }); t.check(err == 0, "a fit reported an error"); t.close(m.A, A, e, "intercept"); t.close(m.B, B, e, "slope"); t.close(m.err, sqrtl(q / (n - 2)), e, "error of a fit");
	th::regression::linear_model w; with_errno(err, [&] { w.fit(x, y, sg); return 0; }); t.check(err == 0, "a weighted fit reported an error"); ld Dl = sw * wxx - wx * wx, cd = sw * wxx / Dl; t.close(w.B, (sw * wxy - wx * wy) / Dl, e * cd, "slope of a weighted fit"); t.close(w.A, (wxx * wy - wx * wxy) / Dl, e * cd, "intercept of a weighted fit"); t.approx(w.sigma_B, sqrtl(sw / Dl), 1000 * U * cd + HW(0, 1e-6L), 0, "error of the slope of a weighted fit");
}
