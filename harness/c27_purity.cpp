// C27: results depend on the arguments alone: not on the number of threads, on concurrent calls or on earlier calls
#include "catalogue.hpp"
#include <thread>
#include <atomic>
#ifdef _OPENMP
#include <omp.h>
#endif
// Each call gives the same result in whatever history of other calls
LAW(history, 2500) {
	size_t n = t.n(2, 12); std::vector<size_t> k(n); std::vector<uint64_t> s(n); std::set<std::string> fams; std::string h; bool one = t.chance(1, 4); size_t k0 = t.n(0, ops.size() - 1); for (size_t i = 0; i < n; ++i) { k[i] = one ? k0 : t.n(0, ops.size() - 1); s[i] = i && t.chance(1, 8) ? s[i - 1] : t.u64(); fams.insert(ops[k[i]].name); h += (i ? ", " : "") + std::string(ops[k[i]].name); t.label(ops[k[i]].name); } t.note("history", h); t.nontrivial(n > 2);
	std::vector<Res> first; for (size_t i = 0; i < n; ++i) first.push_back(call(k[i], s[i]));
	size_t m = t.n(1, 12); for (size_t j = 0; j < m; ++j) { size_t i = t.n(0, n - 1); if (t.chance(1, 4)) call(k[i], s[i]); Res r = call(k[i], s[i]); t.check(nan_same(r.d, first[i].d), std::string("repeating a call later gives another result: ") + ops[k[i]].name); t.check(r.err == first[i].err, std::string("repeating a call later reports something else: ") + ops[k[i]].name); }
	// And the same as in a fresh process
}

// Calls on separate data from several threads behave as if alone
LAW(threads, 900) {
	size_t n = t.n(2, 4), m = t.n(1, 6); bool mix = t.coin(); size_t k0 = t.n(0, ops.size() - 1); std::vector<std::vector<size_t>> k(n, std::vector<size_t>(m)); std::vector<std::vector<uint64_t>> s(n, std::vector<uint64_t>(m)); std::string h; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { k[i][j] = mix ? t.n(0, ops.size() - 1) : k0; s[i][j] = t.u64(); h += std::string(j ? ", " : i ? " | " : "") + ops[k[i][j]].name; t.label(ops[k[i][j]].name); } t.note("calls of each thread", h); t.nontrivial(true);
#ifdef _OPENMP
	omp_set_num_threads(1);
#endif
	std::vector<std::vector<Res>> w(n), r(n); for (size_t i = 0; i < n; ++i) { r[i].resize(m); for (size_t j = 0; j < m; ++j) w[i].push_back(call(k[i][j], s[i][j])); }
	std::atomic<int> gate(0); std::vector<std::thread> th_; for (size_t i = 0; i < n; ++i) th_.emplace_back([&, i] {
#ifdef _OPENMP
		omp_set_num_threads(1);
#endif
		++gate; while (gate < (int) n) std::this_thread::yield(); for (size_t j = 0; j < m; ++j) r[i][j] = call(k[i][j], s[i][j]); });
	for (auto& x : th_) x.join();
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { t.check(nan_same(r[i][j].d, w[i][j].d), std::string("a call from one of several threads gives another result: ") + ops[k[i][j]].name); t.check(r[i][j].err == w[i][j].err, std::string("errors reported in another thread are seen: ") + ops[k[i][j]].name); }
}

#ifndef NO_OMP_LAWS
// Parallel elementwise functions
template<typename X> static bool bits(const X& a, const X& b) { D x, y; add(x, a); add(y, b); return nan_same(x, y); }
template<typename X> struct gen_el; 
template<> struct gen_el<real> { static real get(T& t, double a, double b) { return (real) t.r(a, b); } };
template<> struct gen_el<th::complex<>> { static th::complex<> get(T& t, double a, double b) { return th::complex<>((real) t.r(a, b), (real) t.r(-2, 2)); } };
template<> struct gen_el<th::dual> { static th::dual get(T& t, double a, double b) { return th::dual((real) t.r(a, b), (real) t.r(-2, 2)); } };
template<> struct gen_el<th::multidual<2>> { static th::multidual<2> get(T& t, double a, double b) { return th::multidual<2>((real) t.r(a, b), th::vec<real, 2>({(real) t.r(-2, 2), (real) t.r(-2, 2)})); } };
static size_t length(T& t) { return t.chance(1, 60) ? t.n(65000, 140000) : t.chance(1, 3) ? t.n(0, 3) : t.chance(1, 3) ? t.n(0, 3000) : t.n(0, 70); }
template<typename Vec, typename X, typename P, typename S> static void el(T& t, const char* name, double a, double b, P par, S ser) {
	size_t n = length(t); int nt = (int) t.pick(std::vector<int>{2, 3, 1, 4, 7, 8}); size_t distinct = std::min<size_t>(n, 24); std::vector<X> pool; for (size_t i = 0; i < distinct; ++i) pool.push_back(gen_el<X>::get(t, a, b)); size_t step = t.n(1, 5);
	Vec v; v.resize(n); for (size_t i = 0; i < n; ++i) v[i] = pool[(i * step + i / distinct) % distinct]; NOTE(name); NOTE(n); NOTE(nt); t.label(name); t.nontrivial(n > 1 && nt > 1);
	omp_set_num_threads(nt); Vec keep = v; Vec r = par(v); t.eq((size_t) r.size(), n, "length of the result of a parallel function"); for (size_t i = 0; i < n; ++i) { if (!bits<X>(r[i], ser(v[i]))) t.fail(std::string("parallel ") + name + " differs from the function itself at index " + std::to_string(i)); if (!bits<X>(v[i], keep[i])) t.fail(std::string("parallel ") + name + " changed its argument"); }
}
#define PF(f, a, b) case __COUNTER__ - C0 - 1: el<Vec, X>(t, #f, a, b, [](const Vec& v) { return th::parallel::f(v); }, [](const X& x) -> X { return th::f(x); }); break
template<typename Vec, typename X> static void common(T& t) {
	int k = (int) t.n(0, 12); int e = (int) t.i(-6, 6); enum { C0 = __COUNTER__ };
	switch (k) {
	PF(square, -9, 9); PF(cube, -9, 9); PF(sqrt, 0.01, 90); PF(exp, -9, 9); PF(ln, 0.01, 90); PF(sin, -9, 9); PF(cos, -9, 9); PF(tan, -9, 9); PF(atan, -3, 3); PF(asin, -0.95, 0.95); PF(acos, -0.95, 0.95);
	case 11: NOTE(e); el<Vec, X>(t, "pow", 0.2, 4, [e](const Vec& v) { return th::parallel::pow(v, e); }, [e](const X& x) -> X { return th::pow(x, e); }); break;
	default: el<Vec, X>(t, "apply_function", 0.2, 4, [e](const Vec& v) { return th::parallel::apply_function([e](const X& x) -> X { return x * x + X(e); }, v); }, [e](const X& x) -> X { return x * x + X(e); });
	}
}
template<typename Vec> static void real_only(T& t) {
	typedef real X; int k = (int) t.n(0, 9); real p = (real) t.r(-3, 3); enum { C0 = __COUNTER__ };
	switch (k) {
	PF(abs, -9, 9); PF(cbrt, -90, 90); PF(log2, 0.01, 90); PF(log10, 0.01, 90); PF(cot, 0.1, 3); PF(coth, 0.1, 9); PF(sinh, -3, 3); PF(cosh, -3, 3); PF(tanh, -3, 3);
	default: NOTE(p); el<Vec, X>(t, "powf", 0.2, 9, [p](const Vec& v) { return th::parallel::powf(v, p); }, [p](const X& x) -> X { return th::powf(x, p); });
	}
}
LAW(parallel_real_vec, 1500) { if (t.chance(1, 3)) real_only<V>(t); else common<V, real>(t); }
LAW(parallel_real_std_vector, 1500) { if (t.chance(1, 3)) real_only<std::vector<real>>(t); else common<std::vector<real>, real>(t); }
LAW(parallel_complex, 800) { if (t.coin()) common<th::cvec, th::complex<>>(t); else common<std::vector<th::complex<>>, th::complex<>>(t); }
LAW(parallel_dual, 800) { if (t.coin()) common<th::vec<th::dual>, th::dual>(t); else common<std::vector<th::dual>, th::dual>(t); }

// The function is evaluated exactly once for each element
LAW(evaluated_once, 800) {
	size_t n = length(t); int nt = (int) t.n(1, 8); NOTE(n); NOTE(nt); t.nontrivial(n > 1 && nt > 1); omp_set_num_threads(nt); V v((unsigned) n); for (size_t i = 0; i < n; ++i) v[i] = (real) i; std::vector<std::atomic<int>> c(n + 1); for (auto& x : c) x = 0; std::atomic<int>* p = c.data();
	V r = th::parallel::apply_function([p](real x) { p[(size_t) x]++; return 2 * x + 1; }, v); t.eq((size_t) r.size(), n, "length"); for (size_t i = 0; i < n; ++i) { t.eq((int) c[i], 1, "number of evaluations of an element"); t.eq((double) r[i], 2.0 * i + 1, "element"); }
}
#endif
