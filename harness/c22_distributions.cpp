// C22: probability distributions, likelihood and p-values
#include "common.hpp"
#include "linref.hpp"
using namespace pbt;
typedef th::vec<real> V;
namespace D = th::distribution;
static V vec1(real a) { V v(1u); v[0] = a; return v; } static V vec2(real a, real b) { V v(2u); v[0] = a; v[1] = b; return v; }

// Everything a density promises: the value, the form with a vector of parameters, and the check of their number
struct Dens { const char* name; std::function<real(real)> f; std::function<real(real, const V&)> g; V theta; ld want; ld rel; };
static void judge(T& t, const Dens& d, real x) {
	int err; std::string n = d.name; real v = with_errno(err, [&] { return d.f(x); }); t.approx(v, d.want, d.rel, 1e-300L, n); t.check(!(v < 0), n + " is negative"); t.check(err == 0, n + " reported an error inside its domain");
	real w = d.g(x, d.theta); t.approx(w, v, 1e-14, 1e-300L, n + " with a vector of parameters");
	size_t k = d.theta.size(); V bad((unsigned) (t.coin() ? k + 1 : k - 1)); for (size_t i = 0; i < (size_t) bad.size(); ++i) bad[i] = 1; t.is_nan(with_errno(err, [&] { return (double) d.g(x, bad); }), (n + " with a wrong number of parameters").c_str()); t.check(err != 0, n + ": a wrong number of parameters is reported");
}
#define PDF2(F, a, b, W, R) Dens{#F, [&](real x) { return D::F(x, a, b); }, [](real x, const V& th) { return D::F(x, th); }, vec2(a, b), W, R}
#define PDF1(F, a, W, R) Dens{#F, [&](real x) { return D::F(x, a); }, [](real x, const V& th) { return D::F(x, th); }, vec1(a), W, R}

LAW(continuous, 120000) {
	int k = (int) t.i(0, 11); real a = (real) t.r(-5, 5), s = (real) t.rlog(-1, 1), al = (real) t.r(0.3, 6), be = (real) t.r(0.3, 6); ld x = t.r(-8, 8); if (t.chance(1, 4)) x = a + s * t.r(-3, 3); real X = (real) x; x = X;
	NOTE(k); NOTE(a); NOTE(s); NOTE(al); NOTE(be); NOTE(X); const ld z = (x - a) / s; bool neg = X < 0; t.label_if(neg, "negative argument");
	// the exponential and the power are accurate to about 1e-12
	const ld R = 1e-11L, RP = 1e-9L;
	switch (k) {
	case 0: t.nontrivial(); judge(t, PDF2(gaussian, a, s, expl(-z * z / 2) / (s * sqrtl(2 * PIl)), R), X); break;
	case 1: t.nontrivial(); judge(t, PDF2(cauchy, a, s, 1 / (PIl * s * (1 + z * z)), R), X); break;
	case 2: t.nontrivial(); judge(t, PDF2(breit_wigner, a, s, s / (2 * PIl * ((x - a) * (x - a) + (ld) s * s / 4)), R), X); break;
	case 3: t.nontrivial(); judge(t, PDF2(laplace, a, s, expl(-fabsl(z)) / (2 * (ld) s), R), X); break;
	case 4: t.nontrivial(!neg); judge(t, PDF1(exponential, s, neg ? 0 : s * expl(-s * x), R), X); break;
	case 5: t.nontrivial(!neg); judge(t, PDF1(rayleigh, s, neg ? 0 : x / ((ld) s * s) * expl(-x * x / (2 * (ld) s * s)), R), X); break;
	case 6: t.nontrivial(!neg); judge(t, PDF1(maxwell, s, neg ? 0 : sqrtl(2 / PIl) * x * x * expl(-x * x / (2 * (ld) s * s)) / ((ld) s * s * s), R), X); break;
	case 7: if (X == 0) t.discard(); t.nontrivial(!neg); judge(t, PDF2(gamma, al, be, neg ? 0 : expl(al * logl(be) + (al - 1) * logl(x) - be * x - lgammal(al)), RP), X); break;
	case 8: { X = (real) (t.chance(1, 4) ? t.r(-1, 2) : t.r(0.001, 0.999)); x = X; NOTE(X); bool out = X < 0 || X > 1; if (X == 0 || X == 1) t.discard(); t.nontrivial(!out); judge(t, PDF2(beta, al, be, out ? 0 : expl((al - 1) * logl(x) + (be - 1) * log1pl(-x) + lgammal((ld) al + be) - lgammal(al) - lgammal(be)), RP), X); break; }
	case 9: { s = (real) t.r(0.2, 2); real mu = (real) t.r(-1, 1); NOTE(s); NOTE(mu); if (X == 0) t.discard(); t.nontrivial(!neg); judge(t, PDF2(log_normal, mu, s, neg ? 0 : expl(-powl((logl(x) - mu) / s, 2) / 2) / (x * s * sqrtl(2 * PIl)), RP), X); break; }
	case 10: { real xm = (real) t.r(0.2, 4); NOTE(xm); t.nontrivial(X >= xm); judge(t, PDF2(pareto, xm, al, x < xm ? 0 : al * powl(xm, al) / powl(x, (ld) al + 1), RP), X); int err; real b = -(real) t.r(0, 3); t.is_nan(with_errno(err, [&] { return (double) D::pareto(X, xm, b); }), "pareto with a non-positive index"); t.check(err != 0, "a non-positive index is reported"); break; }
	default: { unsigned n = (unsigned) t.n(1, 40); NOTE(n); t.nontrivial(!neg); if (X == 0) t.discard(); judge(t, Dens{"erlang", [&](real y) { return D::erlang(y, n, s); }, [](real y, const V& th) { return D::erlang(y, th); }, vec2((real) n, s), neg ? 0 : expl(n * logl(s) + (n - 1) * logl(x) - s * x - lgammal((ld) n)), 1e-10L}, X); int err; t.is_nan(with_errno(err, [&] { return (double) D::erlang(X, 0, s); }), "erlang of order 0"); t.check(err != 0, "order 0 is reported"); }
	}
}

LAW(degrees_of_freedom, 60000) {
	unsigned n = (unsigned) t.n(1, 60); real X = (real) (t.coin() ? t.r(-5, 60) : t.rlog(-3, 2)); ld x = X; NOTE(n); NOTE(X); t.nontrivial(X > 0);
	if (X != 0) { ld w = X < 0 ? 0 : expl((n / 2.0L - 1) * logl(x) - x / 2 - n / 2.0L * logl(2) - lgammal(n / 2.0L)); judge(t, Dens{"chi_squared", [&](real y) { return D::chi_squared(y, n); }, [](real y, const V& th) { return D::chi_squared(y, th); }, vec1((real) n), w, 1e-10L}, X); t.approx(D::chi_squared(X, n, th::special::half_gamma(n)), w, 1e-10L, 1e-300L, "chi_squared with a given value of the Gamma function"); }
	real Y = (real) t.r(-20, 20); NOTE(Y); judge(t, Dens{"student", [&](real y) { return D::student(y, n); }, [](real y, const V& th) { return D::student(y, th); }, vec1((real) n), expl(lgammal((n + 1) / 2.0L) - lgammal(n / 2.0L) - (n + 1) / 2.0L * log1pl((ld) Y * Y / n)) / sqrtl(n * PIl), 1e-10L}, Y); t.approx(D::student(Y, n), D::student(-Y, n), 1e-14, 0, "symmetry of the Student distribution");
}

LAW(discrete, 80000) {
	real p = t.chance(1, 6) ? (real) t.i(0, 1) : (real) t.r(0.01, 0.99), lam = (real) t.rlog(-1, 1.5); unsigned n = (unsigned) (t.chance(1, 5) ? t.n(60, 150) : t.n(0, 40)), k = (unsigned) t.n(0, n); NOTE(p); NOTE(lam); NOTE(n); NOTE(k); t.nontrivial(n > 20); t.label_if(n > 20, "beyond 64-bit factorials"); ld q = 1 - (ld) p;
	ld w = expl(lgammal(n + 1.0L) - lgammal(k + 1.0L) - lgammal(n - k + 1.0L)) * powl(p, k) * powl(q, n - k);
	int err; real b = with_errno(err, [&] { return D::binomial(k, n, p); }); t.approx(b, w, 1e-12L * (1 + n), 1e-300L, "binomial probability"); t.check(err == 0, "a binomial probability reported an error"); t.approx(D::binomial((real) k, vec2((real) n, p)), b, 1e-14, 1e-300L, "binomial probability with a vector of parameters");
	unsigned j = (unsigned) t.n(0, 100); NOTE(j); ld wp = expl(j * logl(lam) - lam - lgammal(j + 1.0L)); real po = D::poisson(j, lam); t.approx(po, wp, 1e-12L * (1 + j), 1e-300L, "Poisson probability"); t.approx(D::poisson((real) j, vec1(lam)), po, 1e-14, 1e-300L, "Poisson probability with a vector of parameters");
	for (unsigned c = 0; c < 2; ++c) { t.approx(D::bernoulli(c, p), c ? (ld) p : q, 1e-15, 0, "Bernoulli probability"); t.approx(D::bernoulli((real) c, vec1(p)), c ? (ld) p : q, 1e-15, 0, "Bernoulli probability with a vector of parameters"); }
	// probabilities add up to one
	ld tot = 0; for (unsigned i = 0; i <= n; ++i) tot += D::binomial(i, n, p); t.close(tot, 1, 1e-11 * (1 + n), "sum of the binomial probabilities");
	unsigned m = (unsigned) t.n(1, 5); std::vector<unsigned> x(m); std::vector<real> pr(m); unsigned N = 0; ld ps = 0; for (unsigned i = 0; i < m; ++i) { x[i] = (unsigned) t.n(0, 12); N += x[i]; pr[i] = (real) t.r(0.1, 1); ps += pr[i]; } for (auto& v : pr) v = (real) (v / ps); ld wm = lgammal(N + 1.0L); for (unsigned i = 0; i < m; ++i) wm += x[i] * logl(pr[i]) - lgammal(x[i] + 1.0L); NOTE(N); t.approx(D::multinomial(x, N, m, pr), expl(wm), 1e-11, 1e-300L, "multinomial probability");
	t.is_nan(with_errno(err, [&] { return (double) D::multinomial(x, N, m + 1, pr); }), "multinomial with a wrong number of outcomes"); t.check(err != 0, "a wrong number of outcomes is reported"); pr.push_back(0); t.is_nan(with_errno(err, [&] { return (double) D::multinomial(x, N, m, pr); }), "multinomial with too many probabilities"); t.check(err != 0, "a wrong number of probabilities is reported");
}

LAW(likelihoods, 20000) {
	size_t n = t.sz(0, 15, 150); V x((unsigned) n); for (size_t i = 0; i < n; ++i) x[i] = (real) t.r(-3, 3); real mu = (real) t.r(-2, 2), s = (real) t.r(0.3, 3); NOTE(n); NOTE(mu); NOTE(s); t.nontrivial(n > 1);
	ld l = 0; for (size_t i = 0; i < n; ++i) { ld z = ((ld) x[i] - mu) / s; l += -z * z / 2 - logl(s * sqrtl(2 * PIl)); } th::stat_function f = [](real y, const V& th) { return D::gaussian(y, th); };
	t.close(th::stats::log_likelihood(x, vec2(mu, s), f), l, 1e-12 * (1 + fabsl(l)), "log likelihood"); t.approx(th::stats::likelihood(x, vec2(mu, s), f), expl(l), 1e-11 * (1 + n), 1e-300L, "likelihood");
}

// upper tail of the chi squared distribution, by the finite sums for integer degrees of freedom
static ld tail(ld c, unsigned n) { ld x = c / 2; if (x <= 0) return 1; ld s = n % 2 ? erfcl(sqrtl(x)) : 0; for (unsigned i = n % 2 ? 1 : 0; i < n; i += 2) { ld a = i / 2.0L; if (n % 2 && i == 0) continue; s += expl(a * logl(x) - x - lgammal(a + 1)); } return s; }
LAW(chi_squared_tail, 80000) {
	unsigned n = (unsigned) (t.chance(1, 3) ? t.n(1, 12) : t.n(1, 400)); ld f; switch (t.i(0, 3)) { case 0: f = t.r(0, 5); break; case 1: f = t.rlog(-9, 0); break; case 2: f = 1 + t.r(-5, 5) * sqrtl(2.0L / n); break; default: f = t.n(0, 2); } if (f < 0) f = 0; real c = (real) (f * n); NOTE(n); NOTE(c); t.nontrivial(c > 0); t.label_if(n >= 260, "Gaussian approximation"); int err;
	real p = with_errno(err, [&] { return th::stats::pvalue_chi_squared(c, n); }); t.check(p >= -1e-9 && p <= 1 + 1e-9, "a p-value lies between 0 and 1"); t.check(err == 0, "a p-value reported an error");
	if (n < 260) { ld w = tail(c, n); t.close(p, w, 1e-8L, "p-value of a chi squared"); t.approx(p, w, 1e-6L, 1e-200L + (w > 0.5L ? 1e-8L : 0), "p-value of a chi squared, relative"); }
	else { ld z = ((ld) c - n) / sqrtl(2.0L * n); t.close(p, erfcl(z / sqrtl(2)) / 2, 1e-11L, "p-value in the Gaussian approximation"); t.close(p, tail(c, n), 0.02L, "p-value of a chi squared with many degrees of freedom"); }
	// a larger chi squared is less probable
	real c2 = (real) (c + t.r(0, 2) * sqrt(2.0 * n)); NOTE(c2); t.check(th::stats::pvalue_chi_squared(c2, n) <= p + 1e-9, "p-values decrease with chi squared");
	t.is_nan(with_errno(err, [&] { return (double) th::stats::pvalue_chi_squared(c, 0); }), "p-value without degrees of freedom"); t.check(err != 0, "missing degrees of freedom are reported");
}

// ------------------------------------------------------------ units, edges of the domain and totals

LAW(units, 60000) {
	int k = (int) t.i(0, 11); real u = std::ldexp((real) 1, (int) t.i(-90, 90)), a = (real) t.r(-5, 5), s = (real) t.rlog(-2, 2), al = (real) t.r(0.3, 6), x = (real) (a + s * t.r(-4, 4)); ld R = 1e-11L; if (k >= 4) x = (real) (s * t.r(0, 4)); NOTE(k); NOTE(u); NOTE(a); NOTE(s); NOTE(al); NOTE(x); t.nontrivial(u != 1); int err; real v, w; std::string n;
	#define U(NAME, A, B) n = NAME; v = with_errno(err, [&] { return (real) (A); }); t.check(err == 0, n + " reported an error in other units"); w = (real) (B); break;
	switch (k) {
	case 0: U("gaussian", D::gaussian(x * u, a * u, s * u) * u, D::gaussian(x, a, s))
	case 1: U("cauchy", D::cauchy(x * u, a * u, s * u) * u, D::cauchy(x, a, s))
	case 2: U("breit_wigner", D::breit_wigner(x * u, a * u, s * u) * u, D::breit_wigner(x, a, s))
	case 3: U("laplace", D::laplace(x * u, a * u, s * u) * u, D::laplace(x, a, s))
	case 4: U("exponential", D::exponential(x * u, (1 / s) / u) * u, D::exponential(x, 1 / s))
	case 5: U("rayleigh", D::rayleigh(x * u, s * u) * u, D::rayleigh(x, s))
	case 6: U("maxwell", D::maxwell(x * u, s * u) * u, D::maxwell(x, s))
	case 7: if (x == 0) t.discard(); R = 1e-9L; U("gamma", D::gamma(x * u, al, (1 / s) / u) * u, D::gamma(x, al, 1 / s))
	case 8: if (x == 0) t.discard(); R = 1e-9L; a = (real) t.r(-2, 2); s = (real) t.r(0.2, 2); NOTE(a); NOTE(s); U("log_normal", D::log_normal(x * u, a + (real) logl(u), s) * u, D::log_normal(x, a, s))
	case 9: R = 1e-9L; U("pareto", D::pareto(x * u, s * u, al) * u, D::pareto(x, s, al))
	case 10: { unsigned m = (unsigned) t.n(1, 9); NOTE(m); U("erlang", D::erlang(x * u, m, (1 / s) / u) * u, D::erlang(x, m, 1 / s)) }
	default: { V y(3u), yu(3u); for (int i = 0; i < 3; ++i) { y[i] = (real) (a + s * t.r(-2, 2)); yu[i] = y[i] * u; } th::stat_function f = [](real z, const V& th) { return D::gaussian(z, th); }; U("likelihood", th::stats::likelihood(yu, vec2(a * u, s * u), f) * u * u * u, th::stats::likelihood(y, vec2(a, s), f)) }
	}
	if (k == 8) R = 1e-9L * (1 + fabsl(logl(u)) / s); if (k == 7 || k == 9) R = 1e-12L * (1 + fabsl(logl(u))) * 20 + 1e-9L; t.approx(v, w, R, 1e-300L, n + " in other units");
}

LAW(edges, 40000) {
	real s = (real) t.rlog(-1, 1), al = t.coin() ? (real) t.i(1, 4) : (real) t.r(1.1, 6), be = t.coin() ? (real) t.i(1, 4) : (real) t.r(1.1, 6); unsigned m = (unsigned) t.n(1, 12); NOTE(s); NOTE(al); NOTE(be); NOTE(m); t.nontrivial(); int err; auto at = [&](real v, ld w, const char* n) { t.approx(v, w, 1e-9L, 1e-300L, n); t.check(err == 0, std::string(n) + ": an error was reported"); };
	#define AT(call, w, n) { real v_ = with_errno(err, [&] { return (real) (call); }); at(v_, w, n); }
	AT(D::exponential(0, s), s, "exponential at 0") AT(D::rayleigh(0, s), 0, "rayleigh at 0") AT(D::maxwell(0, s), 0, "maxwell at 0") AT(D::log_normal(0, s, s), 0, "log_normal at 0") AT(D::erlang(0, m, s), m == 1 ? s : 0, "erlang at 0") AT(D::pareto(s, s, al), (ld) al / s, "pareto at the lower end")
	if (m >= 2) AT(D::chi_squared(0, m), m == 2 ? 0.5L : 0, "chi_squared at 0") AT(D::student(0, m), expl(lgammal((m + 1) / 2.0L) - lgammal(m / 2.0L)) / sqrtl(m * PIl), "student at 0") AT(D::gaussian(s, s, s), 1 / (s * sqrtl(2 * PIl)), "gaussian at the mean") AT(D::laplace(s, s, s), 1 / (2 * (ld) s), "laplace at the centre") AT(D::cauchy(s, s, s), 1 / (PIl * s), "cauchy at the centre") AT(D::breit_wigner(s, s, s), 2 / (PIl * s), "breit_wigner at the centre")
	// the ends of the domain
	AT(D::beta(0, al, be), al == 1 ? (ld) be : 0, "beta at 0") AT(D::beta(1, al, be), be == 1 ? (ld) al : 0, "beta at 1") AT(D::gamma(0, al, s), al == 1 ? (ld) s : 0, "gamma at 0")
	// just outside of the domain and far away
	real out = -(real) t.rlog(-300, 300); NOTE(out); AT(D::exponential(out, s), 0, "exponential of a negative number") AT(D::rayleigh(out, s), 0, "rayleigh of a negative number") AT(D::maxwell(out, s), 0, "maxwell of a negative number") AT(D::log_normal(out, s, s), 0, "log_normal of a negative number") AT(D::gamma(out, al, s), 0, "gamma of a negative number") AT(D::erlang(out, m, s), 0, "erlang of a negative number") AT(D::chi_squared(out, m), 0, "chi_squared of a negative number") AT(D::beta(out, al, be), 0, "beta of a negative number") AT(D::beta(1 + (real) t.rlog(-14, 100), al, be), 0, "beta beyond 1") AT(D::pareto(s * (1 - (real) t.rlog(-14, -1)), s, al), 0, "pareto below the lower end") AT(D::pareto(out, s, al), 0, "pareto of a negative number")
	real far = (real) t.rlog(2.5, 6); NOTE(far); AT(D::gaussian(s + far * s, s, s), 0, "gaussian far from the mean") AT(D::gaussian(s - far * s, s, s), 0, "gaussian far from the mean") AT(D::rayleigh(far * s, s), 0, "rayleigh far away") AT(D::maxwell(far * s, s), 0, "maxwell far away") if (far > 1e3) { AT(D::exponential(far / s, s), 0, "exponential far away") AT(D::laplace(s - far * s, s, s), 0, "laplace far away") AT(D::laplace(s + far * s, s, s), 0, "laplace far away") }
	{ ld z = far; AT(D::cauchy((real) (s - z * s), s, s), 1 / (PIl * s * (1 + powl(((ld) (real) (s - z * s) - s) / s, 2))), "cauchy far away") }
	// probabilities of impossible or certain outcomes
	unsigned n = (unsigned) t.n(0, 60), k = (unsigned) t.n(0, n), over = n + 1 + (unsigned) t.n(0, 5); NOTE(n); NOTE(k); AT(D::binomial(k, n, 0), k == 0, "binomial of impossible events") AT(D::binomial(k, n, 1), k == n, "binomial of certain events") AT(D::poisson(k, 0), k == 0, "poisson of null rate") AT(D::bernoulli(0u, 1), 0, "bernoulli") AT(D::bernoulli(1u, 1), 1, "bernoulli") AT(D::bernoulli(0u, 0), 1, "bernoulli") AT(D::bernoulli(1u, 0), 0, "bernoulli") (void) over;
}

// Large parameters: the densities stay accurate as long as they can be represented
LAW(large_parameters, 40000) {
	real lam = (real) t.rlog(-6, 2.5), p = t.coin() ? (real) t.rlog(-8, -1) : 1 - (real) t.rlog(-8, -1); unsigned n = (unsigned) t.n(0, 160), k = (unsigned) (t.coin() ? t.n(0, n) : std::min<size_t>(n, t.n(0, 4))); NOTE(lam); NOTE(p); NOTE(n); NOTE(k); t.nontrivial(n > 20); ld q = 1 - (ld) p;
	ld w = expl(lgammal(n + 1.0L) - lgammal(k + 1.0L) - lgammal(n - k + 1.0L) + (k ? k * logl(p) : 0) + (n - k ? (n - k) * logl(q) : 0)); if (w > 1e-290L && k * log10l(p) + (n - k) * log10l(q) > -290) t.approx(D::binomial(k, n, p), w, 1e-12L * (1 + n), 0, "binomial probability of rare events");
	ld wp = expl(k * logl(lam) - lam - lgammal(k + 1.0L)); if (wp > 1e-290L && k * log10l(lam) < 300 && k * log10l(lam) > -290) t.approx(D::poisson(k, lam), wp, 1e-11L * (1 + k + lam), 0, "Poisson probability of rare or frequent events");
	real al = (real) t.r(0.05, 25), be = (real) t.rlog(-2, 2); real x = (real) (al / be * t.rlog(-1, 0.5)); NOTE(al); NOTE(be); NOTE(x); ld g = expl(al * logl(be) + (al - 1) * logl(x) - (ld) be * x - lgammal(al)); t.approx(D::gamma(x, al, be), g, 1e-8L, 1e-290L, "gamma with a large index");
	real bx = (real) t.r(0.01, 0.99), b2 = (real) t.r(0.05, 25); NOTE(bx); NOTE(b2); ld bw = expl((al - 1) * logl(bx) + (b2 - 1) * log1pl(-(ld) bx) + lgammal((ld) al + b2) - lgammal(al) - lgammal(b2)); t.approx(D::beta(bx, al, b2), bw, 1e-8L, 1e-290L, "beta with large indices");
	unsigned nd = (unsigned) t.n(1, 150); real cx = (real) (nd * t.rlog(-1, 0.5)); NOTE(nd); NOTE(cx); ld cw = expl((nd / 2.0L - 1) * logl(cx) - cx / 2.0L - nd / 2.0L * logl(2) - lgammal(nd / 2.0L)); t.approx(D::chi_squared(cx, nd), cw, 1e-9L, 1e-290L, "chi_squared with many degrees of freedom"); t.approx(D::chi_squared(cx, nd, (real) expl(lgammal(nd / 2.0L))), cw, 1e-9L, 1e-290L, "chi_squared with a given half gamma"); { unsigned c = (unsigned) t.n(1, 4); std::vector<unsigned> cnt(c); std::vector<real> pr(c); unsigned N = 0; ld tot = 0; for (auto& v : pr) tot += v = (real) t.r(0.1, 1); for (auto& v : pr) v = (real) (v / tot); for (auto& v : cnt) N += v = (unsigned) t.n(0, 160 / c); NOTE(cnt); NOTE(pr); ld mw = lgammal(N + 1.0L); for (unsigned i = 0; i < c; ++i) mw += cnt[i] * logl(pr[i]) - lgammal(cnt[i] + 1.0L); t.approx(D::multinomial(cnt, N, c, pr), expl(mw), 1e-12L * (1 + N), 0, "multinomial probability of many events"); } real sx = (real) t.rlogs(-4, 3); NOTE(sx); ld sw = expl(lgammal((nd + 1) / 2.0L) - lgammal(nd / 2.0L) - (nd + 1) / 2.0L * log1pl((ld) sx * sx / nd)) / sqrtl(nd * PIl); t.approx(D::student(sx, nd), sw, 1e-9L, 1e-290L, "student with many degrees of freedom");
}

// Degrees of freedom in the hundreds, far tails, and the logarithm of very small likelihoods
LAW(many_degrees, 30000) {
	unsigned n = (unsigned) t.n(60, 300); real X = (real) (t.coin() ? n + t.r(-6, 10) * sqrtl(2.0L * n) : t.r(0, 1300)); if (X <= 0) t.discard(); NOTE(n); NOTE(X); t.nontrivial(); ld x = X, lw = (n / 2.0L - 1) * logl(x) - x / 2 - n / 2.0L * logl(2) - lgammal(n / 2.0L); t.label_if(x > 700, "far tail");
	// the power and the exponential have to be numbers by themselves
	if ((n / 2.0L - 1) * fabsl(logl(x)) < 690 && x < 1400 && lgammal(n / 2.0L) + n / 2.0L * logl(2) < 690 && lw > -690) { t.approx(D::chi_squared(X, n), expl(lw), 1e-9L, 0, "chi squared density with many degrees of freedom"); t.approx(D::chi_squared(X, vec1((real) n)), expl(lw), 1e-9L, 0, "chi squared density with many degrees of freedom and a vector of parameters"); }
	real Y = (real) t.r(-30, 30); NOTE(Y); ld ls = lgammal((n + 1) / 2.0L) - lgammal(n / 2.0L) - (n + 1) / 2.0L * log1pl((ld) Y * Y / n) - 0.5L * logl(n * PIl); if (lgammal((n + 1) / 2.0L) < 700 && ls > -600) t.approx(D::student(Y, n), expl(ls), 1e-9L, 0, "Student density with many degrees of freedom");
	size_t k = t.n(1, 8); V v((unsigned) k); real mu = (real) t.r(-2, 2), s = (real) t.r(0.3, 2); ld l = 0; for (size_t i = 0; i < k; ++i) { v[i] = (real) (mu + s * t.r(-36, 36)); ld z = ((ld) v[i] - mu) / s; l += -z * z / 2 - logl(s * sqrtl(2 * PIl)); } NOTE(v); th::stat_function f = [](real y, const V& th) { return D::gaussian(y, th); }; t.close(th::stats::log_likelihood(v, vec2(mu, s), f), l, 1e-11L * (1 + fabsl(l)), "log likelihood of far data");
}
