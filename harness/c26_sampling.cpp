// C26: sampling from distributions and Monte Carlo integration
#include "common.hpp"
#include <algorithm>
#include <map>
using namespace pbt;
typedef uint64_t u64;
static const ld SQ2 = 1.41421356237309504880L;

struct Dist { const char* name; int np; };
enum { UNI, GAU, EXPO, CAU, RAY, PAR, LAP, NK };
static const char* names[] = {"uniform", "gaussian", "exponential", "cauchy", "rayleigh", "pareto", "laplace"};
static ld cdf(int k, const std::vector<real>& p, ld x) {
	switch (k) {
	case UNI: return x <= p[0] ? 0 : x >= p[1] ? 1 : (x - p[0]) / ((ld) p[1] - p[0]);
	case GAU: return 0.5L * erfcl(-(x - p[0]) / (p[1] * SQ2));
	case EXPO: return x <= 0 ? 0 : -expm1l(-x * p[0]);
	case CAU: return 0.5L + atanl((x - p[0]) / p[1]) / PIl;
	case RAY: return x <= 0 ? 0 : -expm1l(-x * x / (2 * (ld) p[0] * p[0]));
	case PAR: return x <= p[0] ? 0 : 1 - powl(p[0] / x, p[1]);
	default: return x < p[0] ? 0.5L * expl((x - p[0]) / p[1]) : 1 - 0.5L * expl(-(x - p[0]) / p[1]);
	}
}
static std::vector<real> params(T& t, int k) {
	switch (k) { case UNI: { real a = (real) t.r(-10, 10); return {a, a + (real) t.rlog(-3, 3)}; } case EXPO: case RAY: return {(real) t.rlog(-2, 2)}; case PAR: return {(real) t.rlog(-2, 2), (real) t.r(0.5, 6)}; default: return {(real) t.r(-10, 10), (real) t.rlog(-2, 2)}; }
}
static real draw(int k, const std::vector<real>& p, th::PRNG& g) {
	switch (k) { case UNI: return th::rand_uniform(p[0], p[1], g); case GAU: return th::rand_gaussian(p[0], p[1], g); case EXPO: return th::rand_exponential(p[0], g); case CAU: return th::rand_cauchy(p[0], p[1], g); case RAY: return th::rand_rayleigh(p[0], g); case PAR: return th::rand_pareto(p[0], p[1], g); default: return th::rand_laplace(p[0], p[1], g); }
}
static real wrapped(int k, const std::vector<real>& p, th::PRNG& g) {
	switch (k) { case UNI: return th::rand_uniform(p, g); case GAU: return th::rand_gaussian(p, g); case EXPO: return th::rand_exponential(p, g); case CAU: return th::rand_cauchy(p, g); case RAY: return th::rand_rayleigh(p, g); case PAR: return th::rand_pareto(p, g); default: return th::rand_laplace(p, g); }
}
static th::pdf_sampler sampler(int k, const std::vector<real>& p, th::PRNG& g) {
	switch (k) { case UNI: return th::pdf_sampler::uniform(p[0], p[1], g); case GAU: return th::pdf_sampler::gaussian(p[0], p[1], g); case EXPO: return th::pdf_sampler::exponential(p[0], g); case CAU: return th::pdf_sampler::cauchy(p[0], p[1], g); case RAY: return th::pdf_sampler::rayleigh(p[0], g); case PAR: return th::pdf_sampler::pareto(p[0], p[1], g); default: return th::pdf_sampler::laplace(p[0], p[1], g); }
}
// Kolmogorov-Smirnov distance times the square root of the size; above 4.2 the probability is below 1e-15
template<typename F> static ld ks(std::vector<real>& v, F f) { std::sort(v.begin(), v.end()); ld D = 0, n = v.size(); for (size_t i = 0; i < v.size(); ++i) { ld c = f(v[i]); D = std::max(D, std::max(fabsl((i + 1) / n - c), fabsl(c - i / n))); } return D * sqrtl(n); }
static th::PRNG gen(T& t) { u64 s = t.u64(); NOTE(s); return t.chance(1, 4) ? th::PRNG::wyrand(s) : th::PRNG::xoshiro(s); }

LAW(distribution, 100) {
	int k = (int) t.i(0, NK - 1); auto p = params(t, k); th::PRNG g = gen(t); NOTE(k); NOTE(p); t.label(names[k]); t.nontrivial(true); size_t n = 100000; std::vector<real> v(n); int err = with_errno(err, [&] { for (auto& x : v) x = draw(k, p, g); return errno; }); t.eq(err, 0, "sampling reported an error"); for (real x : v) t.finite(x, "sample");
	ld d = ks(v, [&](ld x) { return cdf(k, p, x); }); t.note("distance", (double) d); t.check(d < 4.2L, "the samples follow the distribution");
}
// Successive samples are not related: pairs fill the square of the distribution functions
LAW(independence, 40) {
	int k = (int) t.i(0, NK - 1); auto p = params(t, k); th::PRNG g = gen(t); NOTE(k); NOTE(p); t.label(names[k]); t.nontrivial(true); size_t n = 60000; const int B = 6; std::vector<size_t> c(B * B, 0); for (size_t i = 0; i < n; ++i) { ld a = cdf(k, p, draw(k, p, g)), b = cdf(k, p, draw(k, p, g)); int u = std::min(B - 1, (int) (a * B)), w = std::min(B - 1, (int) (b * B)); ++c[u * B + w]; } ld e = (ld) n / (B * B), chi = 0; for (size_t x : c) chi += (x - e) * (x - e) / e; t.note("chi", (double) chi); t.check(chi < 150, "successive samples are independent");
}
// The same generator state gives the same sample, whatever was sampled before and whichever way it is asked for
LAW(reproducible, 40000) {
	int k = (int) t.i(0, NK - 1); auto p = params(t, k); th::PRNG g = gen(t), h = g, q = g; NOTE(k); NOTE(p); t.label(names[k]); t.nontrivial(true);
	th::PRNG other = th::PRNG::xoshiro(5); size_t before = t.n(0, 3); NOTE(before); for (size_t i = 0; i < before; ++i) { int j = (int) t.i(0, NK - 1); draw(j, params(t, j), other); }
	real a = draw(k, p, g); if (t.coin()) draw(GAU, {0, 1}, other); real b = wrapped(k, p, h); t.eq((double) b, (double) a, "sample of the form with a vector of parameters"); t.eq(g(), h(), "numbers used by a sample");
	th::pdf_sampler s = sampler(k, p, q); int how = (int) t.i(0, 3); NOTE(how); real c; if (how == 0) c = s(); else if (how == 1) c = s.next(); else if (how == 2) s >> c; else { std::vector<real> v(1); s.fill(v); c = v[0]; } t.eq((double) c, (double) a, "sample of a sampler");
	// A sequence from a sampler, and the same from a copy of the generator
	q = g; h = g; size_t n = t.n(1, 8); std::vector<real> v(n), w(n); s.fill(v); for (auto& x : w) x = draw(k, p, h); for (size_t i = 0; i < n; ++i) t.eq((double) v[i], (double) w[i], "sequence of a sampler"); q = g; std::vector<real> u(n + 2, -7); s.fill(u, n); for (size_t i = 0; i < n; ++i) t.eq((double) u[i], (double) w[i], "part of a vector filled by a sampler"); t.check(u[n] == -7 && u[n + 1] == -7, "nothing past the part is filled");
	int err; std::vector<real> wrong(p.size() + 1, 1.0); t.is_nan(with_errno(err, [&] { return wrapped(k, wrong, g); }), "sample with a wrong number of parameters"); t.check(err != 0, "a wrong number of parameters is reported");
}
// Location and scale
LAW(parameters, 40000) {
	int k = (int) t.i(0, NK - 1); auto p = params(t, k); th::PRNG g = gen(t), h = g; NOTE(k); NOTE(p); t.label(names[k]); t.nontrivial(true); real x = draw(k, p, g); ld z, e;
	switch (k) { case UNI: z = draw(k, {0, 1}, h); e = p[0] + ((ld) p[1] - p[0]) * z; break; case EXPO: e = draw(k, {1}, h) / (ld) p[0]; break; case RAY: e = draw(k, {1}, h) * (ld) p[0]; break; case PAR: e = p[0] * powl(draw(k, {1, 1}, h), 1 / (ld) p[1]); break; default: e = p[0] + (ld) p[1] * draw(k, {0, 1}, h); }
	t.close(x, e, (k == PAR ? 4e-7L : 1e-14L) * (fabsl(e) + fabsl(p[0])), "sample with location and scale");
}
// Scripted generators reach the extremes of the uniform numbers
static u64 scripted(u64 x, std::vector<u64>& p) { u64 i = p[0]++; if (i + 1 < p.size()) return p[i + 1]; u64 z = (i + 1) * 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; (void) x; return z ^ (z >> 31); }
static th::PRNG script(T& t) { std::vector<u64> p(1 + t.n(1, 6)); p[0] = 0; for (size_t i = 1; i < p.size(); ++i) p[i] = t.coin() ? t.pick(std::vector<u64>{0, 1, (1ULL << 31) - 1, (1ULL << 31) - 2, 1ULL << 30, (1ULL << 30) - 1, (1ULL << 30) + 1, ~0ULL, 1ULL << 31}) : t.u64(); NOTE(p); return th::PRNG(scripted, 0, p); }
LAW(extremes, 60000) {
	int k = (int) t.i(0, NK + 3); th::PRNG g = script(t); NOTE(k); t.nontrivial(true); int err; real x;
	if (k < NK) { t.label(names[k]); auto p = params(t, k); NOTE(p); x = with_errno(err, [&] { return draw(k, p, g); }); ld lo = k == UNI ? p[0] : k == PAR ? p[0] * (1 - 1e-7L) : k == EXPO || k == RAY ? 0 : -INFINITY, hi = k == UNI ? p[1] : INFINITY; t.finite(x, "sample"); t.check(x >= lo && x <= hi, "a sample is in the support"); }
	else if (k == NK) { x = with_errno(err, [&] { return th::rand_gaussian_boxmuller(0, 1, g); }); t.label("Box-Muller"); t.check(std::isfinite((double) x) && fabsl(x) < 8, "a Gaussian sample is a number"); }
	else if (k == NK + 1) { x = with_errno(err, [&] { return th::rand_gaussian_polar(0, 1, g); }); t.label("polar"); t.check(std::isfinite((double) x) && fabsl(x) < 12, "a Gaussian sample is a number"); }
	else if (k == NK + 2) { x = with_errno(err, [&] { return th::rand_gaussian_clt(0, 1, g); }); t.label("central limit"); t.check(fabsl(x) <= 6 + 1e-12L, "range of the sum of twelve numbers"); }
	else { unsigned f = (unsigned) t.n(1, 40); NOTE(f); x = with_errno(err, [&] { return th::rand_diceroll(f, g); }); t.label("dice"); t.check(x >= 1 && x <= f && x == (int) x, "a dice shows one of its faces"); }
	t.eq(err, 0, "sampling reported an error");
}
LAW(gaussians, 40) {
	int k = (int) t.i(0, 3); real m = (real) t.r(-5, 5), s = (real) t.rlog(-2, 2); th::PRNG g = gen(t); unsigned N = (unsigned) t.n(12, 40); NOTE(k); NOTE(m); NOTE(s); NOTE(N); t.nontrivial(true); t.label(k == 0 ? "polar" : k == 1 ? "Box-Muller" : k == 2 ? "central limit" : "central limit of N"); size_t n = 100000; std::vector<real> v(n); for (auto& x : v) x = k == 0 ? th::rand_gaussian_polar(m, s, g) : k == 1 ? th::rand_gaussian_boxmuller(m, s, g) : k == 2 ? th::rand_gaussian_clt(m, s, g) : th::rand_gaussian_clt(m, s, g, N);
	ld mu = 0, q = 0; for (real x : v) { ld z = ((ld) x - m) / s; mu += z; q += z * z; } mu /= n; q /= n; t.close(mu, 0, 7 / sqrtl(n), "mean of the samples"); t.close(q, 1, 7 * sqrtl(2.0L / n), "variance of the samples"); ld d = ks(v, [&](ld x) { return cdf(GAU, {m, s}, x); }); t.note("distance", (double) d); t.check(d < 4.2L + (k >= 2 ? 0.004L * sqrtl(n) : 0), "the samples follow the Gaussian distribution");
}
LAW(dice, 40) {
	unsigned f = (unsigned) t.n(1, 30); th::PRNG g = gen(t); NOTE(f); t.nontrivial(f > 1); size_t n = 60000; std::map<real, size_t> c; bool w = t.coin(); for (size_t i = 0; i < n; ++i) ++c[w ? th::rand_diceroll(std::vector<real>{(real) f}, g) : th::rand_diceroll(f, g)]; t.eq(c.size(), (size_t) f, "faces of a dice"); ld chi = 0, e = (ld) n / f; for (auto& p : c) { t.check(p.first >= 1 && p.first <= f && p.first == (int) p.first, "face of a dice"); chi += (p.second - e) * (p.second - e) / e; } t.check(chi < 150, "all faces are equally likely");
	ld s = 0; for (size_t i = 0; i < n; ++i) { real x = w ? th::rand_cointoss(std::vector<real>{}, g) : th::rand_cointoss(g); t.check(x == 1 || x == -1, "face of a coin"); s += x; } t.close(s, 0, 8 * sqrtl(n), "both faces are equally likely"); int err; t.is_nan(with_errno(err, [&] { return th::rand_diceroll(0, g); }), "a dice without faces"); t.check(err != 0, "a dice without faces is reported"); t.is_nan(with_errno(err, [&] { return th::rand_diceroll(std::vector<real>{-3}, g); }), "a dice with negative faces"); t.check(err != 0, "a dice with negative faces is reported"); t.is_nan(with_errno(err, [&] { return th::rand_exponential(0, g); }), "an exponential of null rate"); t.check(err != 0, "a null rate is reported");
}
// Rejection methods: a density proportional to x on [0, w]
LAW(rejection, 30) {
	int k = (int) t.i(0, 1); real w = (real) t.r(0.5, 4), c = (real) t.r(0.6, 1); th::PRNG g = gen(t); NOTE(k); NOTE(w); NOTE(c); t.nontrivial(true); t.label(k ? "rejection" : "try and catch"); size_t n = 60000; std::vector<real> v(n); th::vec<real> theta(2); theta[0] = c; theta[1] = w; th::stat_function f = [](real x, const th::vec<real>& p) { return p[0] * x / (p[1] * p[1]); };
	int err = with_errno(err, [&] { for (auto& x : v) x = k ? th::rand_rejectsamp(f, theta, [&](real) { return 1 / w; }, [&](real u) { return w * u; }, g) : th::rand_trycatch(f, theta, 0, w, 0, c / w, g); return errno; }); t.eq(err, 0, "rejection reported an error"); for (real x : v) t.check(x >= 0 && x <= w, "a sample is in the interval"); ld d = ks(v, [&](ld x) { return x * x / ((ld) w * w); }); t.note("distance", (double) d); t.check(d < 4.2L, "the samples follow the density");
	unsigned tries = (unsigned) t.n(1, 30); th::stat_function z = [](real, const th::vec<real>&) { return (real) 0; }; t.is_nan(with_errno(err, [&] { return th::rand_rejectsamp(z, theta, [](real) { return (real) 1; }, [](real u) { return u; }, g, tries); }), "rejection of everything"); t.check(err != 0, "rejection of everything is reported"); t.is_nan(with_errno(err, [&] { return th::rand_trycatch(z, theta, 0, 1, 0.5, 1, g, tries); }), "nothing to catch"); t.check(err != 0, "nothing to catch is reported");
}
// The target distribution is invariant under the Metropolis steps
LAW(metropolis, 24) {
	real w = (real) t.r(0.1, 1.5); th::PRNG g = gen(t); unsigned depth = (unsigned) t.n(0, 8); bool own = t.coin(), def = t.chance(1, 4); NOTE(w); NOTE(depth); NOTE(own); t.nontrivial(depth > 0 || def); th::real_function pdf = [](real x) { return x < 0 || x > 1 ? 0 : 5 * x; }; bool uni = t.coin(); th::pdf_sampler s = uni ? th::pdf_sampler::uniform(-w, w, g) : th::pdf_sampler::gaussian(0, w, g); th::PRNG o = th::PRNG::xoshiro(t.u64()); size_t n = def ? 20000 : 40000; std::vector<real> v(n);
	for (auto& x : v) { real x0 = (real) sqrtl(th::rand_uniform(0, 1, g)); x = def ? (own ? th::metropolis(pdf, s, x0) : th::metropolis(pdf, s, x0, o)) : own ? th::metropolis(pdf, s, x0, depth) : th::metropolis(pdf, s, x0, o, depth); t.check(x >= 0 && x <= 1, "a step stays in the support"); }
	ld d = ks(v, [&](ld x) { return x * x; }); t.note("distance", (double) d); t.check(d < 4.2L, "the target distribution is invariant");
	// From a bad start the chain gets to the target
	std::vector<real> u(10000); for (auto& x : u) x = th::metropolis(pdf, s, 0.01, 400); if (w > 0.3) t.check(ks(u, [&](ld x) { return x * x; }) < 4.2L, "the chain converges to the target");
}

// Monte Carlo integrals of polynomials of known integral and variance
struct Poly { ld c0, c1, c2; ld at(ld x) const { return c0 + x * (c1 + x * c2); } ld prim(ld x) const { return x * (c0 + x * (c1 / 2 + x * c2 / 3)); } ld prim2(ld x) const { return x * (c0 * c0 + x * (c0 * c1 + x * ((c1 * c1 + 2 * c0 * c2) / 3 + x * (c1 * c2 / 2 + x * c2 * c2 / 5)))); } };
static Poly poly(T& t) { Poly p{(ld) t.r(-3, 3), (ld) t.r(-3, 3), (ld) t.r(-2, 2)}; int k = (int) t.i(0, 3); if (k == 0) p.c1 = p.c2 = 0; else if (k == 1) p.c2 = 0; return p; }
static void bounds(const Poly& p, ld a, ld b, ld& lo, ld& hi, ld& var) { lo = std::min(p.at(a), p.at(b)); hi = std::max(p.at(a), p.at(b)); var = fabsl(p.at(b) - p.at(a)); if (p.c2 != 0) { ld x = -p.c1 / (2 * p.c2); if (x > a && x < b) { lo = std::min(lo, p.at(x)); hi = std::max(hi, p.at(x)); var = fabsl(p.at(x) - p.at(a)) + fabsl(p.at(x) - p.at(b)); } } }
LAW(integrals, 3000) {
	Poly p = poly(t); real a = (real) t.r(-2, 1), b = a + (real) t.r(0.2, 3); th::PRNG g = gen(t); unsigned N = (unsigned) (t.coin() ? 1000 : t.n(200, 6000)); NOTE(p.c0); NOTE(p.c1); NOTE(p.c2); NOTE(a); NOTE(b); NOTE(N); ld I = p.prim(b) - p.prim(a), I2 = p.prim2(b) - p.prim2(a), w = (ld) b - a, sd = sqrtl(std::max(0.0L, w * I2 - I * I) / N), lo, hi, V; bounds(p, a, b, lo, hi, V); t.nontrivial(V > 0.1L); t.label_if(V == 0, "constant");
	th::real_function f = [&](real x) { return (real) p.at(x); }; bool def = N == 1000 && t.coin(); ld r = 1e-9L * (fabsl(lo) + fabsl(hi)) * w;
	t.close(def ? th::integral_crude(f, a, b, g) : th::integral_crude(f, a, b, g, N), I, 7.5L * sd + r, "crude integral"); ld D = (2 + 2 * logl(N)) / N; t.close(def ? th::integral_quasi_crude(f, a, b) : th::integral_quasi_crude(f, a, b, N), I, V * w * D + r, "quasi-random crude integral");
	real c = (real) (lo - t.r(0, 1)), d = (real) (hi + t.r(0.01, 1)); NOTE(c); NOTE(d); ld area = w * ((ld) d - c), q = (I - c * w) / area; t.close(def ? th::integral_hom(f, a, b, c, d, g) : th::integral_hom(f, a, b, c, d, g, N), I, 7.5L * area * sqrtl(fabsl(q * (1 - q)) / N) + 8 * area / N, "hit-or-miss integral"); t.close(def ? th::integral_quasi_hom(f, a, b, c, d) : th::integral_quasi_hom(f, a, b, c, d, N), I, area * (1.5L / sqrtl(N) + 10.0L / N), "quasi-random hit-or-miss integral");
	if (lo >= 0) { t.label("positive"); ld A = w * d; q = I / A; t.close(def ? th::integral_hom(f, a, b, d, g) : th::integral_hom(f, a, b, d, g, N), I, 7.5L * A * sqrtl(fabsl(q * (1 - q)) / N) + 8 * A / N, "hit-or-miss integral of a positive function"); t.close(def ? th::integral_quasi_hom(f, a, b, d) : th::integral_quasi_hom(f, a, b, d, N), I, A * (1.5L / sqrtl(N) + 10.0L / N), "quasi-random hit-or-miss integral of a positive function"); }
	// Importance sampling on [0, 1] with density (1 + 2x) / 2
	ld J = p.prim(1) - p.prim(0); th::real_function im = [](real x) { return (1 + 2 * x) / 2; }, inv = [](real u) { return (real) ((sqrtl(1 + 8 * (ld) u) - 1) / 2); }; ld M = 2 * (fabsl(p.c0) + fabsl(p.c1) + fabsl(p.c2)), ex2 = 0; for (int i = 0; i < 400; ++i) { ld x = (i + 0.5L) / 400; ex2 += p.at(x) * p.at(x) * 2 / (1 + 2 * x) / 400; } ld s2 = sqrtl(std::max(0.0L, ex2 - J * J) / N) + 0.002L * M / sqrtl(N); t.close(th::integral_impsamp(f, im, inv, g, N), J, 7.5L * s2, "integral with importance sampling"); t.close(th::integral_quasi_impsamp(f, im, inv, N), J, 4 * M * D, "quasi-random integral with importance sampling");
}
// Products of linear functions in many variables
static ld K[3][2];
template<unsigned S> static real prod(th::vec<real, S> x) { ld r = 1; for (unsigned i = 0; i < S; ++i) r *= K[i][0] + K[i][1] * x[i]; return (real) r; }
static real prod2(real x, real y) { return (real) ((K[0][0] + K[0][1] * x) * (K[1][0] + K[1][1] * y)); }
template<unsigned S> static void many(T& t) {
	th::vec<th::vec2, S> e; ld I = 1, I2 = 1, vol = 1, V = 1, top = 1; for (unsigned i = 0; i < S; ++i) { real a = (real) t.r(-2, 1), b = a + (real) t.r(0.3, 2); e[i] = {a, b}; K[i][1] = t.r(-2, 2); K[i][0] = fabsl(K[i][1]) * 4 + t.r(0.1, 1); ld w = (ld) b - a, m = ((ld) a + b) / 2, c = K[i][0] + K[i][1] * m; I *= c * w; I2 *= w * (c * c + K[i][1] * K[i][1] * w * w / 12); vol *= w; ld u = std::max(K[i][0] + K[i][1] * a, K[i][0] + K[i][1] * b); top *= u; V *= u + fabsl(K[i][1]) * w; NOTE(a); NOTE(b); NOTE(K[i][0]); NOTE(K[i][1]); }
	th::PRNG g = gen(t); unsigned N = (unsigned) (t.coin() ? 1000 : t.n(500, 5000)); NOTE(N); t.nontrivial(true); bool def = N == 1000 && t.coin(); ld sd = sqrtl(std::max(0.0L, vol * I2 - I * I) / N), r = 1e-9L * vol * top; real (*f)(th::vec<real, S>) = prod<S>;
	t.close(def ? th::integral_crude<S>(f, e, g) : th::integral_crude<S>(f, e, g, N), I, 7.5L * sd + r, "crude integral in many variables"); ld q = th::integral_quasi_crude<S>(f, e, N); t.note("ratio", (double) (fabsl(q - I) * N / (V * vol))); t.close(q, I, V * vol * 12 / N, "quasi-random integral in many variables"); if (def) t.close(th::integral_quasi_crude<S>(f, e), I, V * vol * 12 / N, "quasi-random integral with default arguments");
	th::vec<real, S> al; for (unsigned i = 0; i < S; ++i) al[i] = i == 0 ? 0.41421356237309505 : i == 1 ? 0.73205080756887729 : 0.23606797749978969; t.close(th::integral_quasi_crude<S>(f, e, N, al), I, V * vol * 40 / N, "quasi-random integral with given irrational numbers");
	if (S == 2) { real mx = (real) (top * t.r(1.01, 2)); NOTE(mx); ld A = vol * mx, p = I / A; t.close(th::integral_hom_2d(prod2, e[0][0], e[0][1], e[1][0], e[1][1], mx, g, N), I, 7.5L * A * sqrtl(fabsl(p * (1 - p)) / N) + 8 * A / N, "hit-or-miss integral in two variables"); }
}
LAW(integrals2, 2000) { many<2>(t); }
LAW(integrals3, 2000) { many<3>(t); }

LAW(sample_mc, 6000) {
	size_t n = t.n(1, 4); std::vector<int> k(n); std::vector<std::vector<real>> p(n); std::vector<real> c(n); th::PRNG g = gen(t), h = g; std::vector<th::pdf_sampler> rv; for (size_t i = 0; i < n; ++i) { k[i] = (int) t.i(0, NK - 1); p[i] = params(t, k[i]); c[i] = (real) t.r(-2, 2); rv.push_back(sampler(k[i], p[i], g)); } unsigned N = (unsigned) t.n(0, 30); NOTE(k); NOTE(c); NOTE(N); t.nontrivial(N > 1);
	auto f = [&](const th::vec<real>& x) { real r = 0; for (size_t i = 0; i < n; ++i) r += c[i] * x[i]; return r; }; std::vector<real> s = th::sample_mc(f, rv, N); t.eq(s.size(), (size_t) N, "size of the sample"); for (unsigned j = 0; j < N; ++j) { th::vec<real> x((unsigned) n); for (size_t i = 0; i < n; ++i) x[i] = draw(k[i], p[i], h); t.eq((double) s[j], (double) f(x), "value of the sample"); }
	if (N > 1) { h = g; std::vector<th::pdf_sampler> r2; for (size_t i = 0; i < n; ++i) r2.push_back(sampler(k[i], p[i], h)); real a = th::stats::error_propagation_mc(f, rv, N), b = th::stats::stdev(th::sample_mc(f, r2, N)); t.eq((double) a, (double) b, "uncertainty by sampling"); }
}
LAW(uncertainty_mc, 40) {
	size_t n = t.n(1, 3); th::PRNG g = gen(t); std::vector<th::pdf_sampler> rv; std::vector<real> c(n); ld v = 0; for (size_t i = 0; i < n; ++i) { real s = (real) t.rlog(-1, 1); c[i] = (real) t.rnz(0.2, 2); rv.push_back(th::pdf_sampler::gaussian((real) t.r(-3, 3), s, g)); v += (ld) c[i] * c[i] * s * s; NOTE(s); } NOTE(c); t.nontrivial(true); unsigned N = 40000; real e = th::stats::error_propagation_mc([&](const th::vec<real>& x) { real r = 1; for (size_t i = 0; i < n; ++i) r += c[i] * x[i]; return r; }, rv, N); t.close(e, sqrtl(v), 7 * sqrtl(v) / sqrtl(2.0L * N), "uncertainty of a linear function of Gaussian variables");
}

// Uniform numbers come from the residue of the generator, with any precision
LAW(uniform_exact, 40000) {
	th::PRNG g = t.coin() ? script(t) : gen(t), h = g; real a = (real) t.r(-10, 10), b = (real) (a + t.rlogs(-6, 6)); u64 prec = t.coin() ? th::STATISTICS_RAND_PREC : t.n(1, 1u << 31); bool def = prec == th::STATISTICS_RAND_PREC && t.coin(); NOTE(a); NOTE(b); NOTE(prec); t.nontrivial(); size_t n = t.n(1, 5); for (size_t i = 0; i < n; ++i) { ld z = (ld) (h() % prec) / prec, w = a + ((ld) b - a) * z; real x = def ? th::rand_uniform(a, b, g) : th::rand_uniform(a, b, g, prec); t.close(x, w, 1e-15L * (fabsl(a) + fabsl(b)), "uniform number"); ld e = 1e-15L * (fabsl(a) + fabsl(b)); t.check(x >= std::min(a, b) - e && x <= std::max(a, b) + e, "a uniform number is in the interval"); } t.eq(g(), h(), "numbers used");
}
// Location and scale in other units
LAW(units, 40000) {
	int k = (int) t.i(0, NK + 2), p = (int) t.i(-200, 200); th::PRNG g = t.chance(1, 4) ? script(t) : gen(t), h = g; auto a = k < NK ? params(t, k) : params(t, GAU), b = a; NOTE(k); NOTE(a); NOTE(p); t.nontrivial(p != 0); if (k == EXPO) b[0] = (real) ldexpl(a[0], -p); else { b[0] = (real) ldexpl(a[0], p); if (k != PAR && a.size() > 1) b[1] = (real) ldexpl(a[1], p); } int err; auto take = [&](const std::vector<real>& q, th::PRNG& r) -> real { return k < NK ? draw(k, q, r) : k == NK ? th::rand_gaussian_boxmuller(q[0], q[1], r) : k == NK + 1 ? th::rand_gaussian_polar(q[0], q[1], r) : th::rand_gaussian_clt(q[0], q[1], r); };
	real x = take(a, g), y = with_errno(err, [&] { return take(b, h); }); t.eq(err, 0, "sampling in other units reported an error"); if (std::isfinite((double) x)) t.close(y, ldexpl(x, p), ldexpl(1e-13L * (fabsl(x) + fabsl(a[0]) * (k != EXPO)), p), "sample in other units"); t.eq(g(), h(), "numbers used in other units");
	// the scale of a density does not matter
	int q = (int) t.i(-200, 200); NOTE(q); real s = (real) ldexpl(1, q); th::PRNG u = gen(t), v = u; th::vec<real> one(1), sc(1); one[0] = 1; sc[0] = s; th::stat_function f = [](real z, const th::vec<real>& c) { return c[0] * z; }; real r1 = th::rand_trycatch(f, one, 0, 1, 0, 1, u), r2 = with_errno(err, [&] { return th::rand_trycatch(f, sc, 0, 1, 0, s, v); }); t.eq((double) r2, (double) r1, "try and catch with another scale"); t.eq(err, 0, "try and catch with another scale reported an error");
	r1 = th::rand_rejectsamp(f, one, [](real) { return (real) 1; }, [](real z) { return z; }, u); r2 = th::rand_rejectsamp(f, sc, [s](real) { return s; }, [](real z) { return z; }, v); t.eq((double) r2, (double) r1, "rejection with another scale");
	th::pdf_sampler pu = th::pdf_sampler::gaussian(0, 0.5, u), pv = th::pdf_sampler::gaussian(0, 0.5, v); unsigned depth = (unsigned) t.n(0, 30); NOTE(depth); r1 = th::metropolis([](real z) { return z < 0 || z > 1 ? 0 : z; }, pu, 0.5, depth); r2 = th::metropolis([s](real z) { return z < 0 || z > 1 ? 0 : s * z; }, pv, 0.5, depth); t.eq((double) r2, (double) r1, "Metropolis steps with another scale"); t.eq(u(), v(), "numbers used with another scale");
}
// Monte Carlo estimates are the average over the points which were visited, all inside the interval
static std::vector<std::pair<std::vector<ld>, ld>> seen;
template<unsigned S> static real spy(th::vec<real, S> x) { std::vector<ld> v; ld r = 1; for (unsigned i = 0; i < S; ++i) { v.push_back(x[i]); r *= K[i][0] + K[i][1] * x[i]; } seen.push_back({v, (ld) (real) r}); return (real) r; }
LAW(averages, 20000) {
	Poly p = poly(t); real a = (real) t.r(-2, 1), b = (real) (a + t.rlogs(-3, 3)), c, d; th::PRNG g = gen(t); unsigned N = (unsigned) (t.coin() ? t.n(1, 8) : t.n(1, 80)); int sc = (int) t.i(-150, 150); NOTE(p.c0); NOTE(p.c1); NOTE(p.c2); NOTE(a); NOTE(b); NOTE(N); NOTE(sc); t.nontrivial(N > 1); std::vector<ld> xs, ys; th::real_function f = [&](real x) { real y = (real) ldexpl(p.at(x), sc); xs.push_back(x); ys.push_back(y); return y; };
	auto avg = [&](real got, ld w, const char* m) { t.eq(xs.size(), (size_t) N, std::string(m) + ": number of points"); ld s = 0, A = 0; for (size_t i = 0; i < xs.size(); ++i) { s += ys[i]; A += fabsl(ys[i]); } t.close(got, w * s / N, 1e-15L * (N + 4) * fabsl(w) * A / N, m); };
	auto in = [&](ld lo, ld hi, const char* m) { if (lo > hi) std::swap(lo, hi); ld e = 1e-15L * (fabsl(lo) + fabsl(hi)); for (ld x : xs) t.check(x >= lo - e && x <= hi + e, std::string(m) + ": points inside the interval"); xs.clear(); ys.clear(); };
	real v = th::integral_crude(f, a, b, g, N); avg(v, (ld) b - a, "crude integral"); in(a, b, "crude integral"); v = th::integral_quasi_crude(f, a, b, N); avg(v, (ld) b - a, "quasi-random crude integral"); in(a, b, "quasi-random crude integral");
	// importance sampling: the average of f over the density
	th::real_function im = [](real x) { return (1 + 2 * x) / 2; }, inv = [](real u) { return (real) ((sqrtl(1 + 8 * (ld) u) - 1) / 2); }; for (int q = 0; q < 2; ++q) { v = q ? th::integral_quasi_impsamp(f, im, inv, N) : th::integral_impsamp(f, im, inv, g, N); for (size_t i = 0; i < xs.size(); ++i) ys[i] /= im((real) xs[i]); avg(v, 1, q ? "quasi-random importance sampling" : "importance sampling"); in(0, 1, "importance sampling"); }
	// hit or miss: a share of the rectangle; everything or nothing for functions above or below it
	c = (real) ldexpl(t.r(-3, 0), sc); d = (real) (c + ldexpl(t.r(0.1, 4), sc)); NOTE(c); NOTE(d); ld w = (ld) b - a, area = w * ((ld) d - c), top = t.coin() ? (ld) d : d + ldexpl(1, sc), bot = c - ldexpl((ld) t.r(0.01, 1), sc); real hi = (real) top, lo = (real) bot; int count = 0;
	for (int q = 0; q < 2; ++q) { const char* m = q ? "quasi-random hit-or-miss" : "hit-or-miss"; auto hom = [&](th::real_function h) { return q ? th::integral_quasi_hom(h, a, b, c, d, N) : th::integral_hom(h, a, b, c, d, g, N); }; auto pos = [&](th::real_function h) { return q ? th::integral_quasi_hom(h, a, b, d, N) : th::integral_hom(h, a, b, d, g, N); }; v = hom(f); ld k = (v - w * c) / area * N; t.close(k, roundl(k), 1e-13L * N * (1 + fabsl(w * c / area)), std::string(m) + ": a whole number of hits"); t.check(k > -0.5L && k < N + 0.5L, std::string(m) + ": as many hits as points"); t.eq(xs.size(), (size_t) N, std::string(m) + ": number of points"); in(a, b, m);
		t.approx(hom([&](real) { ++count; return hi; }), w * d, 0, 1e-14L * (fabsl(w * d) + fabsl(w * c)), "hit-or-miss of a function above the rectangle"); t.approx(hom([&](real) { ++count; return lo; }), w * c, 0, 1e-14L * (fabsl(w * d) + fabsl(w * c)), "hit-or-miss of a function below the rectangle"); if (d > 0) { t.approx(pos([&](real) { ++count; return hi; }), w * d, 1e-14L, 0, "hit-or-miss of a positive function above the rectangle"); t.eq((double) pos([&](real) { ++count; return (real) -d; }), 0.0, "hit-or-miss of a function below zero"); } }
	t.eq(count, (int) (N * (d > 0 ? 8 : 4)), "evaluations of hit-or-miss");
	// many variables
	th::vec<th::vec2, 3> e; ld vol = 1; for (int i = 0; i < 3; ++i) { real l = (real) t.r(-2, 1), u = (real) (l + t.rlogs(-2, 1)); e[i] = {l, u}; vol *= (ld) u - l; K[i][0] = t.r(-2, 2); K[i][1] = t.r(-2, 2); NOTE(l); NOTE(u); } for (int q = 0; q < 3; ++q) { seen.clear(); v = q == 0 ? th::integral_crude<3>(spy<3>, e, g, N) : q == 1 ? th::integral_quasi_crude<3>(spy<3>, e, N) : th::integral_quasi_crude<3>(spy<3>, e, N, (real) 0.3); t.eq(seen.size(), (size_t) N, "points in many variables"); ld s = 0, A = 0; for (auto& q2 : seen) { s += q2.second; A += fabsl(q2.second); for (int i = 0; i < 3; ++i) { ld x = q2.first[i], l = std::min(e[i][0], e[i][1]), u = std::max(e[i][0], e[i][1]); t.check(x >= l - 1e-14L && x <= u + 1e-14L, "a point is inside the region"); } } t.close(v, vol * s / N, 1e-15L * (N + 8) * fabsl(vol) * A / N, "average in many variables"); if (q == 2) for (unsigned j = 0; j < N; ++j) for (int i = 0; i < 3; ++i) { ld z = j * powl((real) 0.3, i + 1); z -= floorl(z); ld x = e[i][0] + z * ((ld) e[i][1] - e[i][0]), dd = fabsl(x - seen[j].first[i]); dd = std::min(dd, fabsl(fabsl((ld) e[i][1] - e[i][0]) - dd)); t.close(dd, 0, 1e-14L * (1 + fabsl((ld) e[i][1] - e[i][0])) * N, "points of the sequence of a given number"); } }
}

// The inverse of a cumulative function may be infinite at zero
LAW(quasi_importance, 2000) {
	real l = (real) t.rlog(-1, 1); unsigned N = (unsigned) t.n(500, 4000); NOTE(l); NOTE(N); t.nontrivial(); th::real_function f = [&](real x) { return x * th::exp(-l * x); }, g = [&](real x) { return l * th::exp(-l * x); }, inv = [&](real u) { return -th::ln(u) / l; }; int err; real v = with_errno(err, [&] { return th::integral_quasi_impsamp(f, g, inv, N); }); t.eq(err, 0, "importance sampling reported an error"); t.approx(v, 1 / ((ld) l * l), 0.05L, 0, "quasi-random importance sampling of an infinite interval");
}
LAW(hit_or_miss_units, 6000) {
	real a = (real) t.r(-2, 1), b = (real) (a + t.r(0.3, 2)), c = (real) t.r(-2, 1), d = (real) (c + t.r(0.3, 2)); int p = (int) t.i(-150, 150); unsigned N = (unsigned) t.n(1, 60); ld top = 1; for (int i = 0; i < 2; ++i) { K[i][1] = (real) t.r(-2, 2); K[i][0] = (real) (fabsl(K[i][1]) * 4 + t.r(0.1, 1)); ld lo = i ? c : a, hi = i ? d : b; top *= std::max(K[i][0] + K[i][1] * lo, K[i][0] + K[i][1] * hi); } real mx = (real) (top * t.r(0.3, 2)); th::PRNG g = gen(t), h = g; NOTE(a); NOTE(b); NOTE(c); NOTE(d); NOTE(p); NOTE(N); NOTE(mx); t.nontrivial(p != 0);
	real v = th::integral_hom_2d(prod2, a, b, c, d, mx, g, N); ld area = ((ld) b - a) * ((ld) d - c) * mx, k = v / area * N; t.close(k, roundl(k), 1e-12L * N, "a whole number of hits in two variables"); t.check(k > -0.5L && k < N + 0.5L, "as many hits as points in two variables"); K[0][0] = ldexpl(K[0][0], p); K[0][1] = ldexpl(K[0][1], p); real w = th::integral_hom_2d(prod2, a, b, c, d, (real) ldexpl(mx, p), h, N); t.approx(w, ldexpl(v, p), 1e-13L, 0, "hit-or-miss in two variables in other units"); t.eq(g(), h(), "numbers used in two variables");
	real r = th::integral_hom_2d(prod2, b, a, c, d, (real) ldexpl(top * 1.5L, p), g, N); t.check(r <= 0, "a reversed interval changes the sign"); real low = th::integral_hom_2d([](real, real) { return (real) 5; }, a, b, c, d, 5, g, N); t.approx(low, 5 * ((ld) b - a) * ((ld) d - c), 1e-13L, 0, "hit-or-miss of a constant in two variables");
}

// The tails: rare samples come as often as they should
LAW(tails, 40) {
	int k = (int) t.i(1, NK + 1); auto p = k < NK ? params(t, k) : params(t, GAU); th::PRNG g = gen(t); NOTE(k); NOTE(p); t.nontrivial(); t.label(k < NK ? names[k] : k == NK ? "Box-Muller" : "polar"); const size_t n = 400000; size_t lo3 = 0, hi3 = 0, lo4 = 0, hi4 = 0; for (size_t i = 0; i < n; ++i) { real x = k < NK ? draw(k, p, g) : k == NK ? th::rand_gaussian_boxmuller(p[0], p[1], g) : th::rand_gaussian_polar(p[0], p[1], g); ld c = cdf(k < NK ? k : GAU, p, x); if (c < 1e-3L) { ++lo3; if (c < 1e-4L) ++lo4; } if (c > 1 - 1e-3L) { ++hi3; if (c > 1 - 1e-4L) ++hi4; } }
	NOTE(lo3); NOTE(hi3); NOTE(lo4); NOTE(hi4); t.close((ld) lo3, 400, 170, "samples in the lower thousandth"); t.close((ld) hi3, 400, 170, "samples in the upper thousandth"); t.check(lo4 >= 1 && lo4 < 120, "samples in the lower ten thousandth"); t.check(hi4 >= 1 && hi4 < 120, "samples in the upper ten thousandth");
}
// Metropolis steps far from the origin and in any unit of length
LAW(metropolis_elsewhere, 24) {
	real c = (real) t.rlogs(0, 4), w = (real) t.rlog(-2, 3); th::PRNG g = gen(t); NOTE(c); NOTE(w); t.nontrivial(); th::real_function pdf = [&](real x) { ld z = ((ld) x - c) / w; return (real) expl(-fabsl(z)); }; th::pdf_sampler s = th::pdf_sampler::gaussian(0, 2 * w, g); size_t n = 20000; std::vector<real> v(n); unsigned depth = (unsigned) t.n(1, 12); NOTE(depth); for (auto& x : v) x = th::metropolis(pdf, s, th::rand_laplace(c, w, g), depth); ld d = ks(v, [&](ld x) { return cdf(LAP, {c, w}, x); }); t.note("distance", (double) d); t.check(d < 4.2L, "a target far from the origin is invariant");
}
// Dice with many faces, long fills, long quasi-random sequences
LAW(large_counts, 60) {
	th::PRNG g = gen(t), h = g; unsigned f = (unsigned) (t.coin() ? t.n(100, 5000) : t.n(5000, 4000000000u)); NOTE(f); t.nontrivial(); ld s = 0, top = 0; size_t n = 20000; for (size_t i = 0; i < n; ++i) { real x = th::rand_diceroll(f, g); t.check(x >= 1 && x <= f && x == std::floor(x), "face of a dice with many faces"); s += (x - 1) / (ld) (f - 1); top = std::max<ld>(top, x); } t.close(s / n, 0.5L, 8 * sqrtl(1 / 12.0L / n), "mean of a dice with many faces"); t.check(top > f * 0.99L - 1, "the largest faces come up");
	int k = (int) t.i(0, NK - 1); auto p = params(t, k); size_t m = t.n(1000, 20000); NOTE(k); NOTE(m); h = g; th::pdf_sampler q = sampler(k, p, g); std::vector<real> v(m, -7), u(m + 1, -7); q.fill(v); for (size_t i = 0; i < m; ++i) if (v[i] != draw(k, p, h)) t.fail("datum " + std::to_string(i) + " of a long fill"); q.fill(u, m); for (size_t i = 0; i < m; ++i) if (u[i] != draw(k, p, h)) t.fail("datum " + std::to_string(i) + " of a long part"); t.check(u[m] == -7, "nothing past the part is filled"); t.eq(g(), h(), "numbers used by a long fill");
	unsigned N = (unsigned) t.n(20000, 60000); NOTE(N); std::vector<real> xs; real a = (real) t.r(-3, 3), b = a + (real) t.rlog(-1, 1); th::real_function fn = [&](real x) { xs.push_back(((ld) x - a) / ((ld) b - a)); return (real) 1; }; t.approx(th::integral_quasi_crude(fn, a, b, N), (ld) b - a, 1e-11L, 0, "quasi-random integral of a constant"); t.eq(xs.size(), (size_t) N, "number of quasi-random points"); ld D = ks(xs, [](ld x) { return x; }) * sqrtl(N); t.note("discrepancy", (double) D); t.check(D < 3 + 0.6L * logl(N), "the quasi-random points fill the interval evenly");
	xs.clear(); t.approx(th::integral_crude(fn, a, b, g, N), (ld) b - a, 1e-11L, 0, "crude integral of a constant with many points"); t.eq(xs.size(), (size_t) N, "number of random points"); t.check(ks(xs, [](ld x) { return x; }) < 4.2L, "the random points fill the interval");
	xs.clear(); a = 0; b = 1; th::real_function one = [](real) { return (real) 1; }, id = [](real x) { return x; }; th::integral_impsamp(fn, one, id, g, 100000); ld lo = 1, hi = 0; for (real x : xs) { lo = std::min<ld>(lo, x); hi = std::max<ld>(hi, x); } t.check(lo < 2.2e-4L && hi > 1 - 2.2e-4L && ks(xs, [](ld x) { return x; }) < 4.2L, "importance sampling reaches all of the distribution");
}
// Reversed extremes change the sign of integrals in many variables, over the same region
LAW(reversed_extremes, 2000) {
	th::vec<th::vec2, 2> e; ld I = 1, I2 = 1, vol = 1; int neg = 0; for (int i = 0; i < 2; ++i) { real a = (real) t.r(-2, 1), b = a + (real) t.r(0.3, 2); bool rev = t.coin(); neg += rev; e[i] = rev ? th::vec2({b, a}) : th::vec2({a, b}); K[i][1] = t.r(-2, 2); K[i][0] = fabsl(K[i][1]) * 4 + t.r(0.1, 1); ld w = (ld) b - a, m = ((ld) a + b) / 2, c = K[i][0] + K[i][1] * m; I *= c * w; I2 *= w * (c * c + K[i][1] * K[i][1] * w * w / 12); vol *= w; NOTE(a); NOTE(b); NOTE(rev); } th::PRNG g = gen(t); unsigned N = (unsigned) t.n(1000, 4000); NOTE(N); t.nontrivial(neg == 1); ld sd = sqrtl(std::max(0.0L, vol * I2 - I * I) / N), sg = neg % 2 ? -1 : 1; t.close(th::integral_crude<2>(prod<2>, e, g, N), sg * I, 7.5L * sd + 1e-9L * fabsl(I), "crude integral with reversed extremes"); t.close(th::integral_quasi_crude<2>(prod<2>, e, N), sg * I, 0.05L * fabsl(I), "quasi-random integral with reversed extremes");
	Poly p = poly(t); real a = e[0][0], b = e[0][1]; ld J = p.prim(b) - p.prim(a), J2 = fabsl(p.prim2(b) - p.prim2(a)), w = fabsl((ld) b - a), s1 = sqrtl(std::max(0.0L, w * J2 - J * J) / N); th::real_function f = [&](real x) { return (real) p.at(x); }; t.close(th::integral_crude(f, a, b, g, N), J, 7.5L * s1 + 1e-8L, "crude integral of a reversed interval");
}
