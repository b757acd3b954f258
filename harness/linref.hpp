// Reference linear algebra over long double / complex long double
#ifndef VERIF_LINREF_HPP
#define VERIF_LINREF_HPP
#include "common.hpp"
#include <complex>
typedef std::complex<ld> cld;
typedef th::complex<real> cplx;
typedef std::vector<double> dvec;

struct RM { // dense row-major matrix of doubles
	size_t r, c; std::vector<double> v;
	RM(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), v(r_ * c_, 0.0) {}
	double& operator()(size_t i, size_t j) { return v[i * c + j]; }
	double operator()(size_t i, size_t j) const { return v[i * c + j]; }
};
namespace pbt {
template<> struct Show<RM> {
	static std::string str(const RM& m) {
		std::string s = "[";
		for (size_t i = 0; i < m.r; ++i) { s += i ? "; " : ""; for (size_t j = 0; j < m.c; ++j) s += (j ? " " : "") + show(m(i, j)); }
		return s + "]";
	}
};
template<typename A, unsigned N> struct Show<th::vec<A, N>> { static std::string str(const th::vec<A, N>& v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + show(v[i]); return s + ")"; } };
template<> struct Show<cplx> { static std::string str(const cplx& z) { return show((double) z.a) + "+" + show((double) z.b) + "i"; } };
}

// The unit of measure: mostly 1, otherwise a power of two between 1e-10 and 1e10
inline double gen_unit(pbt::T& t) { return t.chance(1, 4) ? std::ldexp(1.0, (int) t.i(-34, 34)) : 1.0; }
// A factor: special values, next to one, small or any
inline double gen_factor(pbt::T& t, double top) {
	switch (t.choice(7)) { case 0: return 0; case 1: return t.coin() ? 1 : -1; case 2: return (t.coin() ? 1 : -1) * (1 + t.rlogs(-12, -3)); case 3: return t.rlogs(-13, -2); default: return t.r(-top, top); }
}
inline RM gen_rm(pbt::T& t, size_t r, size_t c, double lo = -8, double hi = 8) {
	RM m(r, c);
	bool ints = t.chance(1, 3);
	for (auto& x : m.v) x = ints ? (double) t.i((int64_t) lo, (int64_t) hi) : t.r(lo, hi);
	return m;
}
inline RM rm_mul(const RM& a, const RM& b) {
	RM m(a.r, b.c);
	for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { ld s = 0; for (size_t k = 0; k < a.c; ++k) s += (ld) a(i, k) * b(k, j); m(i, j) = (double) s; }
	return m;
}
inline RM rm_t(const RM& a) { RM m(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) m(j, i) = a(i, j); return m; }
inline double rm_max(const RM& a) { double s = 0; for (double x : a.v) s = std::max(s, std::fabs(x)); return s; }

template<typename M> void to_th(M& m, const RM& r) { for (unsigned i = 0; i < r.r; ++i) for (unsigned j = 0; j < r.c; ++j) m(i, j) = r(i, j); }
inline th::mat<real> dyn(const RM& r) { th::mat<real> m((unsigned) r.r, (unsigned) r.c); to_th(m, r); return m; }
template<unsigned N, unsigned K> th::mat<real, N, K> sta(const RM& r) { th::mat<real, N, K> m; to_th(m, r); return m; }
inline th::vec<real> dynv(const dvec& r) { th::vec<real> v; v.resize(r.size()); for (size_t i = 0; i < r.size(); ++i) v[i] = r[i]; return v; }
template<unsigned N> th::vec<real, N> stav(const dvec& r) { th::vec<real, N> v; for (size_t i = 0; i < N; ++i) v[i] = r[i]; return v; }

template<typename M> void mat_is(pbt::T& t, const M& m, const RM& w, ld tol, const char* msg) {
	if (m.rows() != w.r || m.cols() != w.c)
		t.fail(std::string(msg) + ": shape " + std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + ", expected " + std::to_string(w.r) + "x" + std::to_string(w.c));
	for (unsigned i = 0; i < w.r; ++i) for (unsigned j = 0; j < w.c; ++j)
		t.close((double) m(i, j), w(i, j), tol, (std::string(msg) + " at (" + std::to_string(i) + "," + std::to_string(j) + ")").c_str());
}
template<typename V> void vec_is(pbt::T& t, const V& v, const std::vector<ld>& w, ld tol, const char* msg) {
	if (v.size() != w.size()) t.fail(std::string(msg) + ": size " + std::to_string(v.size()) + ", expected " + std::to_string(w.size()));
	for (size_t i = 0; i < w.size(); ++i) t.close((double) v[(unsigned) i], w[i], tol, (std::string(msg) + " at " + std::to_string(i)).c_str());
}
#endif
