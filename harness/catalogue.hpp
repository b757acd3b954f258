// A catalogue of calls across the library, with deterministic arguments drawn from a seed
#ifndef VERIF_CATALOGUE_HPP
#define VERIF_CATALOGUE_HPP
#include "common.hpp"
using namespace pbt;
typedef std::vector<double> D;
typedef th::vec<real> V;
typedef th::mat<real> M;

// Deterministic arguments from a seed
struct R {
	uint64_t s; explicit R(uint64_t x) : s(x) {}
	uint64_t u() { return splitmix(s); }
	real r(double a, double b) { return (real) (a + (b - a) * ((u() >> 11) * 1.1102230246251565e-16)); }
	int i(int a, int b) { return a + (int) (u() % (uint64_t) (b - a + 1)); }
	V v(int n, double a, double b) { V x((unsigned) n); for (int k = 0; k < n; ++k) x[k] = r(a, b); return x; }
	M m(int n, int k) { M x((unsigned) n, (unsigned) k); for (int p = 0; p < n; ++p) for (int q = 0; q < k; ++q) x(p, q) = r(-2, 2) + (p == q ? 5 : 0); return x; }
	M sym(int n) { M x = m(n, n); for (int p = 0; p < n; ++p) for (int q = 0; q < p; ++q) x(p, q) = x(q, p) = x(p, q) * 0.2; return x; }
	th::polynomial<real> p(int d) { th::polynomial<real> x; x.coeff.resize(d + 1); for (int k = 0; k <= d; ++k) x.coeff[k] = r(-2, 2); return x; }
	th::complex<> z() { return th::complex<>(r(-2, 2), r(-2, 2)); }
};
static void add(D& d, real x) { d.push_back((double) x); }
template<unsigned N> static void add(D& d, const th::vec<real, N>& v) { for (size_t i = 0; i < v.size(); ++i) add(d, v[i]); d.push_back((double) v.size()); }
template<unsigned N, unsigned K> static void add(D& d, const th::mat<real, N, K>& m) { for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) add(d, m(i, j)); }
static void add(D& d, const th::complex<>& z) { add(d, z.a); add(d, z.b); }
template<typename X> static void add(D& d, const std::vector<X>& v) { for (auto& x : v) add(d, x); d.push_back((double) v.size()); }
static void add(D& d, const th::polynomial<real>& p) { add(d, p.coeff); }
static void add(D& d, const th::dual& x) { add(d, x.Re()); add(d, x.Dual()); }
template<unsigned N> static void add(D& d, const th::multidual<N>& x) { add(d, x.Re()); add(d, x.Dual()); }
static void add(D& d, const std::string& s) { d.push_back((double) (hash_str(s) >> 12)); }

struct Op { const char* name; std::function<D(R&)> f; };
#define OP(n, ...) {n, [](R& g) -> D { D d; __VA_ARGS__; return d; }}
static real poly3(real x, real a) { return ((x - a) * x + 0.5) * x - 0.25 * a; }
static const std::vector<Op> ops = {
	OP("elementary", real x = g.r(-20, 20), y = g.r(0.01, 50); add(d, th::sqrt(y)); add(d, th::cbrt(x)); add(d, th::exp(x)); add(d, th::ln(y)); add(d, th::log2(y)); add(d, th::log10(y)); add(d, th::sin(x)); add(d, th::cos(x)); add(d, th::tan(x)); add(d, th::sinh(x)); add(d, th::cosh(x)); add(d, th::tanh(x)); add(d, th::atan(x)); add(d, th::atan2(x, y)); add(d, th::asin(x / 21)); add(d, th::acos(x / 21)); add(d, th::powf(y, x / 5)); add(d, th::pow(x, g.i(-5, 5)))),
	OP("integers", uint64_t n = g.u() >> g.i(1, 50); add(d, (real) th::isqrt(n)); add(d, (real) th::icbrt(n)); add(d, (real) th::ilog2(n | 1)); add(d, (real) th::binomial_coeff(g.i(10, 30), g.i(0, 10))); add(d, (real) th::fact<uint64_t>(g.i(0, 20)))),
	OP("out of domain", add(d, th::sqrt(g.r(-9, -1))); add(d, th::ln(g.r(-9, -1))); add(d, th::asin(g.r(2, 3)))),
	OP("special functions", real x = g.i(0, 3) ? g.r(0.2, 15) : g.r(15, 160); add(d, th::special::gamma(x)); add(d, th::special::lngamma(x)); add(d, th::special::beta(x, g.r(0.3, 6)))),
	OP("vectors", V a = g.v(3, -3, 3), b = g.v(3, -3, 3); add(d, a * b); add(d, th::algebra::norm(a)); add(d, th::algebra::normalize(b)); add(d, a + b); add(d, th::algebra::cross(a, b)); add(d, a.to_string())),
	OP("linear systems", int n = g.i(1, 6); M a = g.m(n, n); V b = g.v(n, -3, 3); add(d, th::algebra::solve(a, b)); add(d, th::algebra::inverse(a)); add(d, th::algebra::det(a)); add(d, a * b); add(d, a * a)),
	OP("decompositions", int n = g.i(1, 6); M a = g.m(n, n), L, U; th::algebra::decompose_lu(a, L, U); add(d, L); add(d, U); M s = g.sym(n); add(d, th::algebra::decompose_cholesky(s))),
	OP("eigenvalues", int n = g.i(2, 5); M s = g.sym(n); s(0, 0) += 15; V x = g.v(n, 0.5, 1.5); add(d, th::algebra::eigenvalue_power(s, x)); add(d, th::algebra::rayleigh_quotient(s, x))),
	OP("distances", V a = g.v(4, -3, 3), b = g.v(4, -3, 3); add(d, th::algebra::euclidean_distance(a, b)); add(d, th::algebra::manhattan_distance(a, b)); add(d, th::algebra::chebyshev_distance(a, b)); add(d, th::algebra::cosine_distance(a, b)); add(d, th::algebra::minkowski_distance(a, b, 3))),
	OP("transformations", add(d, th::algebra::rotation_2d<M>(g.r(-5, 5), 2, 2)); add(d, th::algebra::identity<M>(3, 3))),
	OP("complex numbers", auto z = g.z(), w = g.z(); add(d, z * w); add(d, z / w); add(d, th::exp(z)); add(d, th::sqrt(z)); add(d, th::ln(z)); add(d, th::sin(z)); add(d, th::atan(z)); add(d, th::abs(z)); add(d, z.to_string())),
	OP("phasors", th::phasor<> p(g.r(0.1, 3), g.r(-3, 3)), q(g.r(0.1, 3), g.r(-3, 3)); auto s = p + q; add(d, s.phase); add(d, s.modulus); auto m = p * q; add(d, m.phase); add(d, m.modulus)),
	OP("quaternions", th::quat<> p(g.r(-2, 2), g.r(-2, 2), g.r(-2, 2), g.r(-2, 2)), q(g.r(-2, 2), g.r(-2, 2), g.r(-2, 2), g.r(-2, 2)); auto s = p * q; add(d, s.a); add(d, s.b); add(d, s.c); add(d, s.d); add(d, s.norm())),
	OP("first derivatives", th::dual x(g.r(0.2, 3), 1); add(d, th::sin(x) * th::exp(x) / th::sqrt(x)); add(d, th::ln(x)); add(d, th::pow(x, g.i(-3, 3)))),
	OP("gradients", th::multidual<3> x(g.r(0.2, 3), th::vec<real, 3>({1, 0, 0})), y(g.r(0.2, 3), th::vec<real, 3>({0, 1, 0})); add(d, th::sin(x * y) + th::ln(x) / y); add(d, th::sqrt(x + y))),
	OP("dynamic gradients", int n = g.i(1, 4); add(d, th::autodiff::gradient([](th::autodiff::dvec_t<0> v) { auto s = v[0] * v[0]; for (size_t i = 1; i < v.size(); ++i) s = s + th::sin(v[i]) * v[0]; return s; }, g.v(n, -2, 2)))),
	OP("second derivatives", th::dual2 x(g.r(0.2, 3), 1, 0); auto y = th::sin(x) * th::exp(x) / th::sqrt(x); add(d, y.Re()); add(d, y.Dual1()); add(d, y.Dual2())),
	OP("polynomials", auto p = g.p(g.i(1, 6)), q = g.p(g.i(1, 4)); add(d, p * q); add(d, p + q); add(d, p / q); add(d, p(g.r(-2, 2))); add(d, th::deriv(p)); add(d, th::integral(p)); add(d, p.to_string())),
	OP("orthogonal polynomials", unsigned n = (unsigned) g.i(0, 8); add(d, th::legendre_polynomial(n)); add(d, th::laguerre_polynomial(n)); add(d, th::hermite_polynomial(n)); add(d, th::chebyshev1_polynomial(n)); add(d, th::general_laguerre_polynomial(g.r(0, 2), n))),
	OP("derivatives", real a = g.r(-1, 1), x = g.r(-2, 2); auto f = [a](real t) { return poly3(t, a); }; add(d, th::deriv(f, x)); add(d, th::deriv_ridders2(f, x)); add(d, th::deriv2(f, x, 1e-3))),
	OP("integrals", real a = g.r(-1, 1), b = g.r(1, 3); auto f = [a](real t) { return poly3(t, a) + th::sin(t); }; add(d, th::integral_trapezoid(f, a, b, 50)); add(d, th::integral_simpson(f, a, b, 50)); add(d, th::integral_midpoint(f, a, b, 50)); add(d, th::integral_romberg(f, a, b)); add(d, th::integral_legendre(f, a, b, 8)); add(d, th::integral(f, a, b))),
	OP("Gaussian quadrature", real a = g.r(-1, 1); auto f = [a](real t) { return poly3(t, a); }; add(d, th::integral_laguerre(f)); add(d, th::integral_hermite(f)); unsigned n = (unsigned) g.i(2, 12); auto x = th::legendre_roots(n); add(d, x); add(d, th::legendre_weights(x))),
	OP("differential equations", real k = g.r(0.2, 3), h = g.r(0.01, 0.1); auto f = [k](real t, const V& x) { V y(2); y[0] = x[1]; y[1] = -k * x[0] + t; return y; }; V x = g.v(2, -1, 1); auto s = th::ode::solve_rk4(f, x, (real) 0, (real) 1, h); add(d, s.t); for (size_t i = 0; i < s.x.size(); ++i) add(d, s.x[i]); auto q = th::ode::solve_k38(f, x, (real) 0, (real) 1, h); for (size_t i = 0; i < q.x.size(); ++i) add(d, q.x[i])),
	OP("roots of functions", real a = g.r(-1, 1); th::real_function f = [a](real x) { return (x - a) * (x * x + 1); }; th::real_function df = [a](real x) { return x * x + 1 + 2 * x * (x - a); }; add(d, th::root_bisect(f, -3, 3)); add(d, th::root_itp(f, -3, 3)); add(d, th::root_newton(f, df, g.r(-1, 1))); add(d, th::root_steffensen(f, a + 0.1)); add(d, th::roots(f, -3, 3))),
	OP("extrema", real a = g.r(-1, 1); th::real_function f = [a](real x) { return th::square(x - a); }; th::real_function df = [a](real x) { return 2 * (x - a); }; add(d, th::minimize_goldensection(f, -3, 3)); add(d, th::minimize_bisection(f, df, -3, 3))),
	OP("interpolation", int n = g.i(3, 7); std::vector<th::vec<real, 2>> p; for (int i = 0; i < n; ++i) p.push_back({(real) i + g.r(0, 0.5), g.r(-2, 2)}); add(d, th::lagrange_polynomial(p)); th::spline s(p); for (int i = 0; i < 5; ++i) add(d, s(g.r(-1, 8))); real a = g.r(-1, 0); add(d, th::chebyshev_nodes(a, 2, 5)); add(d, th::interpolate_chebyshev([](real x) { return th::exp(x); }, a, 2, 5))),
	OP("Fourier transforms", th::cvec x(1u << g.i(0, 7)); for (auto& z : x) z = g.z(); auto k = th::signal::fft(x); for (auto& z : k) add(d, z); auto b = th::signal::ifft(k); for (auto& z : b) add(d, z)),
	OP("data sets", V a = g.v(g.i(2, 40), 0.5, 3), b(a); for (auto& x : b) x = x * x; add(d, th::sum(a)); add(d, th::sum_pairwise(a)); add(d, th::sum_compensated(a)); add(d, th::product(a)); add(d, th::geometric_mean(a)); add(d, th::stats::mean(a)); add(d, th::stats::stdev(a)); add(d, th::stats::covariance(a, b)); add(d, th::stats::kurtosis(a)); add(d, th::stats::autocorrelation(a)); add(d, th::max(a)); add(d, th::min(a))),
	OP("distributions", real x = g.r(0.1, 3), s = g.r(0.3, 2); add(d, th::distribution::gaussian(x, 0, s)); add(d, th::distribution::gamma(x, s, 1.5)); add(d, th::distribution::beta(x / 4, 2, s)); add(d, th::distribution::student(x, 4)); add(d, th::distribution::poisson((unsigned) g.i(0, 6), s)); add(d, th::stats::pvalue_chi_squared(x, 3))),
	OP("regression", int n = g.i(3, 12); V x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = i + g.r(0, 0.5); y[i] = 2 * x[i] + g.r(-1, 1); } th::regression::linear_model m(x, y, 0.5); add(d, m.A); add(d, m.B); add(d, m.sigma_A); add(d, m.sigma_B); add(d, m.err); add(d, m.to_string())),
	OP("histograms", V v = g.v(g.i(1, 60), -3, 3); th::histogram h(v, (unsigned) g.i(1, 12)); for (auto c : h.bins()) d.push_back(c); add(d, h.mean()); add(d, h.to_string())),
	OP("generators", th::PRNG p = th::PRNG::xoshiro(g.u()); for (int i = 0; i < 8; ++i) add(d, (real) (p() >> 11)); th::PRNG q = th::PRNG::wyrand(g.u()); for (int i = 0; i < 8; ++i) add(d, (real) (q() >> 11)); V v = g.v(10, 0, 1); th::shuffle(v, p); add(d, v)),
	OP("sampling", th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::rand_uniform(-1, 1, p)); int n = g.i(1, 5); for (int i = 0; i < n; ++i) { add(d, th::rand_gaussian(0, 1, p)); add(d, th::rand_gaussian_polar(0, 1, p)); add(d, th::rand_gaussian_boxmuller(0, 1, p)); add(d, th::rand_gaussian_clt(0, 1, p)); } add(d, th::rand_exponential(2, p)); add(d, th::rand_cauchy(0, 1, p)); auto s = th::pdf_sampler::laplace(0, 1, p); add(d, s())),
	OP("Monte Carlo", th::PRNG p = th::PRNG::xoshiro(g.u()); add(d, th::integral_crude([](real x) { return x * x; }, 0, g.r(1, 2), p, 60)); add(d, th::integral_quasi_crude([](real x) { return x * x; }, 0, g.r(1, 2), 60))),
	OP("quasirandom numbers", unsigned n = (unsigned) g.i(1, 1000); add(d, th::qrand_weyl(n)); add(d, th::qrand_weyl2(n))),
	OP("elementwise functions", V v = g.v(g.i(0, 40), 0.1, 3); add(d, th::parallel::sin(v)); add(d, th::parallel::sqrt(v)); add(d, th::apply([](real x) { return x * x; }, v))),
};
struct Res { D d; int err; };
static Res call(size_t k, uint64_t seed) { R g(seed); errno = 0; Res r; r.d = ops[k].f(g); r.err = errno; errno = 0; return r; }
static bool same(const D& a, const D& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static bool nan_same(const D& a, const D& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::isnan(a[i]) && std::isnan(b[i])) && std::memcmp(&a[i], &b[i], 8)) return false; return true; }

#endif
