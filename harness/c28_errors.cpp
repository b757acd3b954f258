// C28: how failures are reported, in each of the three configurations
#include "catalogue.hpp"
#if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
#define EXC 1
#else
#define EXC 0
#endif
#ifdef THEORETICA_ONLY_EXCEPTIONS
#define USES_ERRNO 0
#else
#define USES_ERRNO 1
#endif
typedef th::MATH_ERRCODE Code;
static const Code DIV = th::DIV_BY_ZERO, DOM = th::OUT_OF_DOMAIN, RNG = th::OUT_OF_RANGE, IMP = th::IMPOSSIBLE_OPERATION, CNV = th::NO_ALGO_CONVERGENCE, ARG = th::INVALID_ARGUMENT;
static int to_errno(Code c) { return c == DIV || c == RNG || c == CNV ? ERANGE : c == DOM || c == IMP ? EDOM : c == ARG ? EINVAL : 0; }
static const char* text(Code c) { return c == DIV ? "Division by zero" : c == DOM ? "domain" : c == RNG ? "range" : c == IMP ? "impossible" : c == CNV ? "converge" : c == ARG ? "Invalid argument" : "No error"; }

// A failing call: the code it reports through errno, the code it throws (the first failure met) and the kind of its result
enum Kind { NAN_RESULT, ANY_RESULT };
struct Bad { const char* name; Code code, thrown; Kind kind; std::function<D(R&)> f; };
#define B(n, c, ...) {n, c, c, NAN_RESULT, [](R& g) -> D { D d; __VA_ARGS__; return d; }}
#define B2(n, c, e, k, ...) {n, c, e, k, [](R& g) -> D { D d; __VA_ARGS__; return d; }}
static V shorter(R& g, const V& v) { return g.v((int) v.size() + g.i(1, 3), -2, 2); }
static real nopos(real x) { return x * x + 1; }
static real real_part(real x) { return x; }
static real real_part(const th::complex<>& z) { return z.a; }
#include "failures.hpp"
static const std::vector<Bad> bad1 = {
	B("sqrt of a negative number", DOM, add(d, th::sqrt(-g.r(0.1, 100)))),
	B("ln of a negative number", DOM, add(d, th::ln(-g.r(0.1, 100)))),
	B("log2 of a negative number", DOM, add(d, th::log2(-g.r(0.1, 100)))),
	B("log10 of a negative number", DOM, add(d, th::log10(-g.r(0.1, 100)))),
	B2("ln of zero", RNG, RNG, ANY_RESULT, add(d, th::ln(0))),
	B2("log2 of zero", RNG, RNG, ANY_RESULT, add(d, th::log2(0))),
	B2("log10 of zero", RNG, RNG, ANY_RESULT, add(d, th::log10(0))),
	B("asin outside [-1, 1]", DOM, add(d, th::asin((g.i(0, 1) ? 1 : -1) * g.r(1.001, 50)))),
	B("acos outside [-1, 1]", DOM, add(d, th::acos((g.i(0, 1) ? 1 : -1) * g.r(1.001, 50)))),
	B("acosh below 1", DOM, add(d, th::acosh(g.r(-9, 0.999)))),
	B("atanh outside (-1, 1)", DOM, add(d, th::atanh((g.i(0, 1) ? 1 : -1) * g.r(1.001, 50)))),
	B("atan2 of the origin", DOM, add(d, th::atan2(0, 0))),
	B("cot of zero", DIV, add(d, th::cot(0))),
	B("even root of a negative number", DOM, add(d, th::root(-g.r(0.1, 9), 2 * g.i(1, 4)))),
	B2("binomial coefficient, k > n", IMP, IMP, ANY_RESULT, int n = g.i(0, 20); add(d, (real) th::binomial_coeff(n, n + g.i(1, 9)))),
	B2("gamma of a non positive integer", DOM, DOM, ANY_RESULT, add(d, th::special::gamma((real) -g.i(1, 12)))),
	B("lngamma where gamma is negative", DOM, add(d, th::special::lngamma(-(2 * g.i(0, 6) + g.r(0.05, 0.95))))),
	B("division of a vector by zero", DIV, V v = g.v(g.i(1, 6), -2, 2); v /= 0; add(d, v[0])),
	B("sum of vectors of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); v += shorter(g, v); add(d, v[0])),
	B("difference of vectors of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); v -= shorter(g, v); add(d, v[0])),
	B("dot product of vectors of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::algebra::dot(v, shorter(g, v)))),
	B("cross product of vectors not of size 3", ARG, V v = g.v(g.i(4, 6), -2, 2); add(d, th::algebra::cross(v, v)[0])),
	B("normalisation of a null vector", DIV, V v((unsigned) g.i(1, 6), 0); add(d, th::algebra::normalize(v)[0])),
	B("euclidean distance of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::algebra::euclidean_distance(v, shorter(g, v)))),
	B("manhattan distance of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::algebra::manhattan_distance(v, shorter(g, v)))),
	B("chebyshev distance of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::algebra::chebyshev_distance(v, shorter(g, v)))),
	B("canberra distance of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::algebra::canberra_distance(v, shorter(g, v)))),
	B("cosine distance of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::algebra::cosine_distance(v, shorter(g, v)))),
	B("minkowski distance of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::algebra::minkowski_distance(v, shorter(g, v), 3))),
	B("sum of matrices of unequal sizes", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n + 1, k); add(d, th::algebra::mat_sum(a, b)(0, 0))),
	B("difference of matrices of unequal sizes", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(n, k + 1); add(d, th::algebra::mat_diff(a, b)(0, 0))),
	B("product of matrices of unequal sizes", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k), b = g.m(k + 1, n); add(d, (a * b)(0, 0))),
	B("matrix times vector of another size", ARG, int n = g.i(1, 4), k = g.i(1, 4); M a = g.m(n, k); add(d, (a * g.v(k + 1, -2, 2))[0])),
	B("division of a matrix by zero", DIV, M a = g.m(2, 3); a /= 0; add(d, a(0, 0))),
	B("inverse of a non square matrix", ARG, M a = g.m(2, 3); add(d, th::algebra::inverse(a)(0, 0))),
	B("inverse of a singular matrix", IMP, int n = g.i(2, 4); M a = g.m(n, n); for (int i = 0; i < n; ++i) a(i, 0) = 0; add(d, th::algebra::inverse(a)(0, 0))),
	B("determinant of a non square matrix", ARG, add(d, th::algebra::det(g.m(2, 3)))),
	B("Cholesky decomposition of a non square matrix", ARG, add(d, th::algebra::decompose_cholesky(g.m(2, 3))(0, 0))),
	B("Cholesky decomposition of a non symmetric matrix", ARG, M a = g.m(3, 3); a(0, 1) = a(1, 0) + 1; add(d, th::algebra::decompose_cholesky(a)(0, 0))),
	B("Cholesky decomposition of an indefinite matrix", ARG, M a = g.sym(3); a(1, 1) = -g.r(1, 4); add(d, th::algebra::decompose_cholesky(a)(0, 0))),
	B("linear system with a non square matrix", ARG, V b = g.v(2, -2, 2); add(d, th::algebra::solve(g.m(2, 3), b)[0])),
	B("linear system with a vector of another size", ARG, V b = g.v(4, -2, 2); add(d, th::algebra::solve(g.m(3, 3), b)[0])),
	B("singular triangular system", DIV, M a(3, 3); a(0, 0) = 1; a(1, 0) = 2; a(2, 2) = g.r(1, 2); add(d, th::algebra::solve_triangular_lower(a, g.v(3, 1, 2))[0])),
	B("Rayleigh quotient of a null vector", DIV, add(d, th::algebra::rayleigh_quotient(g.m(3, 3), V(3u, 0)))),
	B("power iteration on a non square matrix", ARG, add(d, th::algebra::eigenvalue_power(g.m(2, 3), g.v(2, 1, 2)))),
	B("power iteration with a vector of another size", ARG, add(d, th::algebra::eigenvalue_power(g.m(3, 3), g.v(4, 1, 2)))),
	B("inverse of the complex zero", DIV, add(d, th::complex<>(0, 0).inverse())),
	B("division of a complex number by zero", DIV, add(d, g.z() / (real) 0)),
	B("inverse of the null quaternion", DIV, auto q = th::quat<>(0, 0, 0, 0).inverse(); add(d, q.a)),
	B("division of a quaternion by zero", DIV, auto q = th::quat<>(1, g.r(1, 2), 3, 4) / (real) 0; add(d, q.a)),
	B("inverse of a null phasor", DIV, auto q = th::phasor<>(0, 0).inverse(); add(d, q.modulus)),
	B("division by a null phasor", DIV, auto q = th::phasor<>(g.r(1, 2), 1) / th::phasor<>(0, 0); add(d, q.modulus)),
	B("division of a dual number by zero", DIV, th::dual x(g.r(1, 2), 1); x /= (real) 0; add(d, x.Re())),
	B("inverse of a dual number without real part", DIV, add(d, th::dual(0, 1).inverse().Re())),
	B("ln of a negative dual number", DOM, add(d, th::ln(th::dual(-g.r(1, 2), 1)))),
	B("asin of a dual number above 1", DOM, add(d, th::asin(th::dual(g.r(2, 3), 1)))),
	B("division by a polynomial that is zero", DIV, th::polynomial<real> z; z.coeff.resize(1); z.coeff[0] = 0; add(d, (g.p(3) / z).coeff[0])),
	B("roots of a polynomial not of degree 2", IMP, auto r = g.p(4).quadratic_roots(); add(d, r[0].a)),
	B("trapezoid rule without steps", DIV, add(d, th::integral_trapezoid(nopos, 0, 1, 0))),
	B("midpoint rule without steps", DIV, add(d, th::integral_midpoint(nopos, 0, 1, 0))),
	B("Simpson's rule without steps", DIV, add(d, th::integral_simpson(nopos, 0, 1, 0))),
	B("Gaussian quadrature with nodes and weights of unequal number", ARG, std::vector<real> x(3, g.r(0, 1)), w(4, 1); add(d, th::integral_gauss(nopos, x, w))),
	B("Laguerre quadrature with an unavailable number of points", ARG, add(d, th::integral_laguerre(nopos, (unsigned) (2 * g.i(3, 100) + 1)))),
	B("Hermite quadrature with an unavailable number of points", ARG, add(d, th::integral_hermite(nopos, (unsigned) (2 * g.i(3, 100) + 1)))),
	B("bisection without a sign change", ARG, add(d, th::root_bisect(nopos, -g.r(1, 2), g.r(1, 2)))),
	B("bisection on a reversed interval", ARG, add(d, th::root_bisect([](real x) { return x; }, g.r(1, 2), -g.r(1, 2)))),
	B("ITP method without a sign change", ARG, add(d, th::root_itp(nopos, -g.r(1, 2), g.r(1, 2)))),
	B("Newton's method without a root", CNV, th::real_function f = nopos, e = [](real x) { return 2 * x; }; add(d, th::root_newton(f, e, g.r(0.3, 0.4)))),
	B("golden section on a reversed interval", ARG, add(d, th::minimize_goldensection(nopos, g.r(1, 2), -g.r(1, 2)))),
	B2("minimisation by bisection of a monotonic function", ARG, ARG, NAN_RESULT, th::real_function f = [](real x) { return x; }, e = [](real) { return 1; }; add(d, th::minimize_bisection(f, e, -g.r(1, 2), g.r(1, 2)))),
	B("gradient descent with a step of the wrong sign", ARG, add(d, th::multi_minimize_grad<2>([](th::autodiff::dvec_t<2> v) { return v[0] * v[0] + v[1] * v[1]; }, th::vec<real, 2>({1, 1}), g.r(0.1, 1))[0])),
	B("transform of a length that is not a power of two", ARG, th::cvec x((unsigned) (2 * g.i(1, 40) + 1)); for (auto& z : x) z = g.z(); add(d, th::signal::fft(x)[0].a)),
	B("Lagrange interpolation of no points", ARG, std::vector<th::vec<real, 2>> p; add(d, th::lagrange_polynomial(p))),
	B("Lagrange interpolation of a repeated abscissa", ARG, std::vector<th::vec<real, 2>> p; real x = g.r(-1, 1); p.push_back({x, 1}); p.push_back({3, 1}); p.push_back({x, 2}); add(d, th::lagrange_polynomial(p))),
	B("smoothstep on a null interval", DIV, real a = g.r(-1, 1); add(d, th::smoothstep(a, a, g.r(0, 1)))),
	B("mean of no data", DIV, add(d, th::stats::mean(V()))),
	B("harmonic mean with a zero", DIV, V v = g.v(4, 1, 2); v[g.i(0, 3)] = 0; add(d, th::harmonic_mean(v))),
	B("sum of products of unequal sizes", ARG, V v = g.v(g.i(1, 6), -2, 2); add(d, th::product_sum(v, shorter(g, v)))),
	B("covariance of unequal sizes", ARG, V v = g.v(g.i(2, 6), -2, 2); add(d, th::stats::covariance(v, shorter(g, v)))),
	B("variance of a single datum", ARG, add(d, th::stats::variance(g.v(1, -2, 2)))),
	B("gaussian distribution with missing parameters", ARG, add(d, th::distribution::gaussian(g.r(0, 1), g.v(1, 1, 2)))),
	B("gamma distribution with missing parameters", ARG, add(d, th::distribution::gamma(g.r(0, 1), g.v(1, 1, 2)))),
	B("linear regression of unequal sizes", ARG, V v = g.v(4, -2, 2); th::regression::linear_model m; m.fit(v, shorter(g, v)); add(d, m.A); add(d, m.B)),
	B("least squares of a single abscissa", DIV, V x(4u, g.r(1, 2)), y = g.v(4, -2, 2); real a, b; th::regression::ols_linear(x, y, a, b); add(d, a); add(d, b)),
	B("dice without faces", ARG, th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::rand_diceroll(0u, p))),
	B("exponential sampling with null rate", DIV, th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::rand_exponential(0, p))),
	B("gaussian sampling with missing parameters", ARG, th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::rand_gaussian(std::vector<real>{1}, p))),
	B2("shuffle of an empty vector", ARG, ARG, ANY_RESULT, th::PRNG p = th::PRNG::xoshiro(g.u()); V v; th::shuffle(v, p)),
	B("resizing of a vector of fixed size", ARG, th::vec<real, 3> v; v.resize((size_t) g.i(4, 9)); add(d, th::nan())),
};
static const std::vector<Bad> bad = [] { std::vector<Bad> v = bad1; v.insert(v.end(), bad2.begin(), bad2.end()); return v; }();

LAW(failures, 36000) {
	size_t k = t.n(0, bad.size() - 1); const Bad& b = bad[k]; uint64_t s = t.u64(); int sentinel = t.pick(std::vector<int>{0, ENOENT, EIO}); t.note("call", std::string(b.name)); NOTE(sentinel); t.label(b.name); t.nontrivial(true); R g(s); D d; errno = sentinel;
#if EXC
	bool thrown = false;
	try { d = b.f(g); } catch (const th::math_exception& e) {
		int err = errno; errno = 0; thrown = true; t.eq((int) e.err_code(), (int) b.thrown, "error code of the exception"); t.eq(err, USES_ERRNO ? to_errno(b.thrown) : sentinel, "errno after an exception");
		std::string w = e.what(), f = e.get_function_name(), file = e.get_file_name(), str = e.to_string(); unsigned line = e.get_line_number(); std::ostringstream o; o << e; t.check(w.find(text(b.thrown)) != std::string::npos, "the description tells the kind of error, got: " + w); t.check(!f.empty(), "an exception names the function"); t.check(file.size() > 2 && file.substr(file.size() - 2) == ".h", "an exception names the source file"); t.check(line > 0, "an exception tells the line");
		for (auto& part : {w, f, file, std::to_string(line)}) t.check(str.find(part) != std::string::npos, "text of an exception misses " + part); t.eq(o.str(), str, "streamed exception");
	} catch (...) { t.fail("something else than a math_exception was thrown"); }
	t.check(thrown, "no exception was thrown");
#else
	d = b.f(g); int err = errno; errno = 0; t.eq(err, to_errno(b.code), "errno after a failure"); if (b.kind == NAN_RESULT) { t.check(!d.empty(), "no result"); bool nan = !d.empty(); for (size_t i = 0; i < d.size(); ++i) nan = nan && (std::isnan(d[i]) || d[i] == (double) (d.size() - 1)); t.check(nan, "the result of a failed call is not NaN"); }
#endif
}
#if EXC
// Exceptions are caught as standard exceptions
LAW(standard_exception, 600) {
	size_t k = t.n(0, bad.size() - 1); const Bad& b = bad[k]; R g(t.u64()); t.note("call", std::string(b.name)); t.nontrivial(true); t.label(b.name); bool ok = false; try { b.f(g); } catch (const std::exception& e) { ok = std::string(e.what()).find(text(b.thrown)) != std::string::npos; } catch (...) {} errno = 0; t.check(ok, "a failure is not caught as a std::exception with its description");
}
LAW(exception_fields, 600) {
	Code c = t.pick(std::vector<Code>{DIV, DOM, RNG, IMP, CNV, ARG, th::NO_ERROR}); unsigned line = (unsigned) t.n(0, 100000); real v = (real) t.rlogs(-8, 8); std::string f = "f" + std::string(t.sz(0, 9, 200, 4), 'g') + std::to_string(t.n(0, 99)), file = "a/b" + std::string(t.sz(0, 9, 300, 4), 'c') + std::to_string(t.n(0, 99)) + ".h"; NOTE(f); NOTE(file); NOTE(line); NOTE(v); t.nontrivial(true); th::math_exception e(c, f, file, line, v), q = e; t.eq((int) q.err_code(), (int) c, "code"); t.eq(q.get_function_name(), f, "function"); t.eq(q.get_file_name(), file, "file"); t.eq(q.get_line_number(), line, "line"); t.eq((double) q.get_value(), (double) v, "value"); t.check(std::string(q.what()).find(text(c)) != std::string::npos, "description"); t.check(std::string(q).find(text(c)) != std::string::npos, "description as text"); std::ostringstream vs; vs << v; for (auto& part : {f, file, std::to_string(line), vs.str()}) t.check(std::string(q).find(part) != std::string::npos, "text of an exception misses " + part);
}
#endif
// Calls within the domain report nothing: errno keeps the value it had and nothing is thrown
LAW(successes, 9000) {
	size_t k = t.n(0, ops.size() - 1); if (std::string(ops[k].name) == "out of domain") t.discard(); uint64_t s = t.u64(); int sentinel = t.pick(std::vector<int>{ENOENT, 0, EIO}); t.note("call", std::string(ops[k].name)); NOTE(s); t.label(ops[k].name); t.nontrivial(true); R g(s); errno = sentinel; D d = ops[k].f(g); int err = errno; errno = 0; t.eq(err, sentinel, "errno after a successful call"); for (double x : d) if (std::isnan(x)) t.fail("NaN from a successful call");
}
// The correspondence between error codes and errno
LAW(codes, 100) { Code c = t.pick(std::vector<Code>{DIV, DOM, RNG, IMP, CNV, ARG, th::NO_ERROR}); t.nontrivial(true); t.note("code", (int) c); t.eq(th::th_errcode_to_errno(c), to_errno(c), "errno of an error code"); }
