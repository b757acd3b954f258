// C05: matrices form the algebra of linear maps, for every shape and layout
#include "linref.hpp"
using namespace pbt;
namespace alg = th::algebra;

static RM rm_add(const RM& a, const RM& b, double s) { RM m(a.r, a.c); for (size_t i = 0; i < m.v.size(); ++i) m.v[i] = a.v[i] + s * b.v[i]; return m; }
static RM rm_scale(const RM& a, double s) { RM m = a; for (auto& x : m.v) x *= s; return m; }

template<typename M, typename N> static void add_laws(T& t, M A, N B, const RM& a, const RM& b, double k) {
	const ld ma = rm_max(a), mb = rm_max(b), e = 1e-15L * std::max(ma, mb), ek = 1e-15L * (2 + std::fabs(k)) * ma;
	mat_is(t, A + B, rm_add(a, b, 1), e, "A + B");
	mat_is(t, A - B, rm_add(a, b, -1), e, "A - B");
	mat_is(t, A * (real) k, rm_scale(a, k), ek, "A * k");
	mat_is(t, (real) k * A, rm_scale(a, k), ek, "k * A");
	M s = A; s += B; mat_is(t, s, rm_add(a, b, 1), e, "A += B");
	s = A; s -= B; mat_is(t, s, rm_add(a, b, -1), e, "A -= B");
	s = A; s *= (real) k; mat_is(t, s, rm_scale(a, k), ek, "A *= k");
	if (std::fabs(k) > 1e-14) {
		mat_is(t, A / (real) k, rm_scale(a, 1 / k), 2e-15L * ma / std::fabs(k), "A / k");
		s = A; s /= (real) k; mat_is(t, s, rm_scale(a, 1 / k), 2e-15L * ma / std::fabs(k), "A /= k");
	}
	double worst = 0; for (size_t i = 0; i < a.v.size(); ++i) worst = std::max(worst, std::fabs(a.v[i] - b.v[i]));
	t.check(A == A, "A == A"); t.check(!(A != A), "A != A");
	if (worst > 1e-9) { t.check(A != B, "A != B"); t.check(!(A == B), "A == B"); }
	M r = A; alg::mat_sum(r, A, B); mat_is(t, r, rm_add(a, b, 1), e, "mat_sum into destination");
	r = A; alg::mat_diff(r, A, B); mat_is(t, r, rm_add(a, b, -1), e, "mat_diff into destination");
	r = A; alg::mat_sum(r, B); mat_is(t, r, rm_add(a, b, 1), e, "mat_sum in place");
	r = A; alg::mat_diff(r, B); mat_is(t, r, rm_add(a, b, -1), e, "mat_diff in place");
	r = A; alg::mat_scalmul((real) k, r); mat_is(t, r, rm_scale(a, k), ek, "mat_scalmul in place");
	r = A; alg::mat_scalmul(r, (real) k, A); mat_is(t, r, rm_scale(a, k), ek, "mat_scalmul into destination");
	const double l = gen_factor(t, 5); t.note("second coefficient", l); const ld el = ek + 1e-15L * (2 + std::fabs(l)) * mb;
	r = A; alg::mat_lincomb((real) k, r, (real) l, B); mat_is(t, r, rm_add(rm_scale(a, k), b, l), el, "mat_lincomb in place");
	r = A; for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) r(i, j) = (real) (i + 3.5); alg::mat_lincomb(r, (real) k, A, (real) l, B); mat_is(t, r, rm_add(rm_scale(a, k), b, l), el, "mat_lincomb into destination");
	// an undefined element makes the matrices different
	{ unsigned i = (unsigned) t.n(0, a.r - 1), j = (unsigned) t.n(0, a.c - 1); M w = A; N v = B; to_th(v, a); t.check(alg::mat_equals(w, v), "mat_equals of equal matrices"); if (t.coin()) w(i, j) = (real) NAN; else v(i, j) = (real) NAN; t.check(!alg::mat_equals(w, v) && !(w == v) && w != v, "matrices with an undefined element are different"); }
	mat_is(t, A, a, 0, "the operand is unchanged");
	// iteration visits every element, row after row
	size_t c = 0; for (auto x : A) { t.check(c < a.v.size() && (double) x == a.v[c], "iteration order"); ++c; }
	t.eq(c, a.v.size(), "iteration length");
	t.eq((size_t) A.size(), a.v.size(), "size()");
	const M& K = A;
	c = 0; for (auto it = K.begin(); it != K.end(); ++it) { t.check(c < a.v.size() && (double) *it == a.v[c], "constant iteration order"); t.eq((size_t) it.row_index(), c / a.c, "row of an iterator"); t.eq((size_t) it.col_index(), c % a.c, "column of an iterator"); ++c; } t.eq(c, a.v.size(), "constant iteration length");
	{ M W = A; c = 0; for (auto it = W.begin(); !(it == W.end()); ++it) { t.eq((size_t) it.row_index(), c / a.c, "row of an iterator"); *it = (real) (c + k); ++c; } for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) t.eq((double) W(i, j), (double) (real) (i * a.c + j + k), "element written by iteration"); W.make_zeroes(); mat_is(t, W, RM(a.r, a.c), 0, "make_zeroes");
	W = A; unsigned i = (unsigned) t.n(0, a.r - 1), j = (unsigned) t.n(0, a.c - 1); W.at(i, j) = (real) k; t.eq((double) W.get(i, j), k, "at"); W(i, j) = (real) (k + 1); t.eq((double) W.at(i, j), k + 1, "element"); if (a(i, j) != k + 1) { t.check(!(W == A) || std::fabs(a(i, j) - k - 1) < 1e-9, "matrices with one different element are different"); } W(i, j) = (real) a(i, j); mat_is(t, W, a, 0, "one element is written"); }
	for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) t.eq((double) K(i, j), a(i, j), "constant element");
	for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) { t.eq((double) K.get(i, j), a(i, j), "get"); t.eq((double) K.at(i, j), a(i, j), "at"); }
}

template<typename M, typename N> static void mul_laws(T& t, const M& A, const N& B, const RM& a, const RM& b) {
	const RM p = rm_mul(a, b); const ld e = 1e-15L * (a.c + 2) * a.c * rm_max(a) * rm_max(b);
	mat_is(t, A * B, p, e, "A * B");
	mat_is(t, A.mul(B), p, e, "A.mul(B)");
}

// Elements of any magnitude, operands of the same or of different magnitudes, sometimes equal; returns a factor
static double units(T& t, RM& a, RM& b) {
	double u = gen_unit(t), w = t.chance(2, 3) ? u : gen_unit(t); a = rm_scale(a, u); b = rm_scale(b, w); if (a.r == b.r && a.c == b.c && t.chance(1, 10)) { b = a; t.label("equal operands"); }
	t.label_if(u < 1e-6, "small unit"); t.label_if(u > 1e6, "large unit"); return gen_factor(t, 9);
}
LAW(dynamic_matrices, 30000) {
	size_t r = t.sz(1, 6, 24), c = t.sz(1, 6, 24); RM a = gen_rm(t, r, c), b = gen_rm(t, r, c); double k = units(t, a, b);
	NOTE(a); NOTE(b); NOTE(k); t.nontrivial(r > 1 && c > 1); t.label(r == c ? "square" : r < c ? "wide" : "tall");
	add_laws(t, dyn(a), dyn(b), a, b, k);
}
LAW(dynamic_products, 40000) {
	size_t r = t.sz(1, 6, 24), c = t.sz(1, 6, 40), d = t.sz(1, 6, 24); RM a = gen_rm(t, r, c), b = gen_rm(t, c, d); units(t, a, b);
	NOTE(a); NOTE(b); t.nontrivial(r > 1 && c > 1 && d > 1); t.label(r == c && c == d ? "square" : "rectangular");
	th::mat<real> A = dyn(a), B = dyn(b); const RM p = rm_mul(a, b); const ld e = 1e-15L * (c + 2) * c * rm_max(a) * rm_max(b);
	mul_laws(t, A, B, a, b);
	mat_is(t, alg::mat_mul(A, B), p, e, "mat_mul");
	th::mat<real> R((unsigned) r, (unsigned) d); if (t.coin()) for (auto& x : R) x = (real) 3.5; alg::mat_mul(R, A, B); mat_is(t, R, p, e, "mat_mul into destination");
	mat_is(t, alg::mat_transpose_mul(dyn(rm_t(a)), B), p, e, "mat_transpose_mul");
	mat_is(t, alg::mat_mul_transpose(A, dyn(rm_t(b))), p, e, "mat_mul_transpose");
	// associativity and the transpose of a product
	RM c2 = rm_scale(gen_rm(t, d, t.n(1, 4)), gen_unit(t)); const ld e3 = 3 * e * (d + 2) * rm_max(c2); th::mat<real> C = dyn(c2);
	mat_is(t, (A * B) * C, rm_mul(p, c2), e3, "(A B) C"); mat_is(t, A * (B * C), rm_mul(p, c2), e3, "A (B C)");
	mat_is(t, alg::transpose(A * B), rm_mul(rm_t(b), rm_t(a)), e, "(A B)^T = B^T A^T");
	A *= B; mat_is(t, A, p, e, "A *= B");
}
LAW(static_matrices, 30000) {
	double k;
	switch (t.choice(4)) {
#define CASE(I, R, C) case I: { RM a = gen_rm(t, R, C), b = gen_rm(t, R, C); k = units(t, a, b); NOTE(a); NOTE(b); NOTE(k); t.nontrivial(); t.label(R == C ? "square" : "rectangular"); add_laws(t, sta<R, C>(a), sta<R, C>(b), a, b, k); break; }
	CASE(0, 2, 2) CASE(1, 3, 3) CASE(2, 2, 3) CASE(3, 4, 2) CASE(4, 4, 4)
#undef CASE
	}
}
LAW(mixed_matrices, 20000) {
	RM a = gen_rm(t, 2, 3), b = gen_rm(t, 2, 3), c = gen_rm(t, 3, 3), d = gen_rm(t, 3, 3); double k = units(t, a, b); units(t, c, d);
	NOTE(a); NOTE(b); NOTE(c); NOTE(d); t.nontrivial();
	add_laws(t, sta<2, 3>(a), dyn(b), a, b, k);
	add_laws(t, dyn(a), sta<2, 3>(b), a, b, k);
	mul_laws(t, sta<3, 3>(c), dyn(d), c, d);
	mul_laws(t, dyn(c), sta<3, 3>(d), c, d);
	th::mat<real> D(sta<2, 3>(a)); mat_is(t, D, a, 0, "dynamic constructed from static");
	D = sta<3, 3>(c); mat_is(t, D, c, 0, "dynamic assigned from static");
	th::mat<real, 2, 3> S(dyn(a)); mat_is(t, S, a, 0, "static constructed from dynamic");
	S = dyn(b); mat_is(t, S, b, 0, "static assigned from dynamic");
}
LAW(static_products, 30000) {
	switch (t.choice(3)) {
#define CASE(I, R, C, D) case I: { RM a = gen_rm(t, R, C), b = gen_rm(t, C, D); units(t, a, b); NOTE(a); NOTE(b); t.nontrivial(); t.label(R == C && C == D ? "square" : "rectangular"); mul_laws(t, sta<R, C>(a), sta<C, D>(b), a, b); break; }
	CASE(0, 2, 2, 2) CASE(1, 2, 3, 4) CASE(2, 4, 2, 3) CASE(3, 3, 3, 3)
#undef CASE
	}
}

static std::vector<ld> mv(const RM& a, const dvec& x) { std::vector<ld> y(a.r, 0); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) y[i] += (ld) a(i, j) * x[j]; return y; }

LAW(transforms, 40000) {
	size_t r = t.sz(1, 6, 40), c = t.sz(1, 6, 40); RM a = rm_scale(gen_rm(t, r, c), gen_unit(t)); dvec x = t.reals(c, -9, 9); const double ux = gen_unit(t); for (auto& y : x) y *= ux;
	NOTE(a); NOTE(x); t.nontrivial(r > 1 && c > 1); t.label(r == c ? "square" : r < c ? "wide" : "tall");
	th::mat<real> A = dyn(a); th::vec<real> X = dynv(x); auto w = mv(a, x); const ld e = 1e-14L * (c + 2) * c * rm_max(a) * ux;
	vec_is(t, A * X, w, e, "A * x");
	vec_is(t, A.transform(X), w, e, "A.transform(x)");
	vec_is(t, alg::transform(A, X), w, e, "algebra::transform");
	th::vec<real> R(r); if (t.coin()) for (auto& y : R) y = (real) 3.5; alg::transform(R, A, X); vec_is(t, R, w, e, "algebra::transform into destination");
	th::vec<real> Y = X; alg::apply_transform(A, Y); vec_is(t, Y, w, e, "apply_transform");
	vec_is(t, X, std::vector<ld>(x.begin(), x.end()), 0, "the argument is unchanged");
	// composition
	size_t d = t.n(1, 5); RM b = gen_rm(t, d, r); th::mat<real> B = dyn(b);
	vec_is(t, (B * A) * X, mv(b, dvec(w.begin(), w.end())), 24 * e * (r + 2), "(B A) x");
	RM s = gen_rm(t, 2, 3); dvec y = t.reals(3, -9, 9); auto v = mv(s, y);
	vec_is(t, sta<2, 3>(s) * stav<3>(y), v, 2e-12, "static rectangular A * x");
	vec_is(t, sta<2, 3>(s).transform(stav<3>(y)), v, 2e-12, "static rectangular A.transform(x)");
	RM q = gen_rm(t, 4, 2); dvec z = t.reals(2, -9, 9);
	vec_is(t, sta<4, 2>(q) * stav<2>(z), mv(q, z), 2e-12, "static tall A * x");
	RM u = gen_rm(t, 3, 3); vec_is(t, sta<3, 3>(u) * stav<3>(y), mv(u, y), 2e-12, "static square A * x");
	vec_is(t, A.transform(std::vector<real>(x.begin(), x.end())), w, e, "A.transform(std::vector)"); vec_is(t, sta<3, 3>(u).transform(std::vector<real>(y.begin(), y.end())), mv(u, y), 2e-12, "static A.transform(std::vector)");
	RM u2 = gen_rm(t, 3, 3); th::mat<real, 3, 3> U = sta<3, 3>(u); U *= sta<3, 3>(u2); mat_is(t, U, rm_mul(u, u2), 2e-12, "static A *= B"); U = sta<3, 3>(u); U *= dyn(u2); mat_is(t, U, rm_mul(u, u2), 2e-12, "static A *= dynamic B");
	vec_is(t, dyn(u) * stav<3>(y), mv(u, y), 2e-12, "dynamic A * static x");
}

LAW(shape_operations, 40000) {
	size_t r = t.sz(1, 6, 24), c = t.sz(1, 6, 24); const double un = gen_unit(t); RM a = rm_scale(gen_rm(t, r, c), un); NOTE(a); t.nontrivial(r > 1 && c > 1);
	th::mat<real> A = dyn(a);
	mat_is(t, alg::transpose(A), rm_t(a), 0, "transpose");
	mat_is(t, alg::transpose(alg::transpose(A)), a, 0, "transpose twice");
	mat_is(t, alg::hermitian(A), rm_t(a), 0, "hermitian of a real matrix");
	th::mat<real> D((unsigned) c, (unsigned) r); alg::transpose(D, A); mat_is(t, D, rm_t(a), 0, "transpose into destination");
	th::mat<real> H((unsigned) c, (unsigned) r); alg::hermitian(H, A); mat_is(t, H, rm_t(a), 0, "hermitian into destination");
	if (r == c) {
		th::mat<real> S = A; S.transpose(); mat_is(t, S, rm_t(a), 0, "in place transpose");
		S = A; alg::make_hermitian(S); mat_is(t, S, rm_t(a), 0, "make_hermitian");
	}
	ld tr = 0, dp = 1, mx = 1; for (size_t i = 0; i < std::min(r, c); ++i) { tr += a(i, i); dp *= a(i, i); mx *= std::fabs(a(i, i)); }
	t.close((double) alg::trace(A), tr, 1e-15L * (r + 2) * r * un * 8, "trace"); t.close((double) alg::diagonal_product(A), dp, 1e-15L * (r + 2) * mx, "diagonal_product");
	size_t p = t.n(0, r - 1), q = t.n(0, r - 1); RM w = a; for (size_t j = 0; j < c; ++j) std::swap(w(p, j), w(q, j));
	th::mat<real> S = A; alg::mat_swap_rows(S, p, q); mat_is(t, S, w, 0, "mat_swap_rows");
	p = t.n(0, c - 1); q = t.n(0, c - 1); w = a; for (size_t i = 0; i < r; ++i) std::swap(w(i, p), w(i, q));
	S = A; alg::mat_swap_cols(S, p, q); mat_is(t, S, w, 0, "mat_swap_cols");
	double sg = un * gen_factor(t, 5); w = a; for (size_t i = 0; i < std::min(r, c); ++i) w(i, i) += sg;
	S = A; alg::mat_shift_diagonal(S, (real) sg); mat_is(t, S, w, 1e-14L * un, "mat_shift_diagonal");
	RM id(r, c); for (size_t i = 0; i < std::min(r, c); ++i) id(i, i) = 1;
	S = A; alg::make_identity(S); mat_is(t, S, id, 0, "make_identity");
	mat_is(t, th::mat<real>((real) sg, (unsigned) r, (unsigned) c), rm_scale(id, sg), 0, "diagonal constructor");
	th::mat<real> Z = A; Z.make_zeroes(); mat_is(t, Z, RM(r, c), 0, "make_zeroes");
	mat_is(t, th::mat<real>((unsigned) r, (unsigned) c), RM(r, c), 0, "a new matrix is null");
	// resizing keeps the elements whose indices survive
	size_t r2 = t.sz(1, 6, 24), c2 = t.sz(1, 6, 24); t.note("r2", r2); t.note("c2", c2);
	RM z(r2, c2); for (size_t i = 0; i < std::min(r, r2); ++i) for (size_t j = 0; j < std::min(c, c2); ++j) z(i, j) = a(i, j);
	S = A; S.resize((unsigned) r2, (unsigned) c2); mat_is(t, S, z, 0, "resize");
	RM e = gen_rm(t, 3, 3); th::mat<real, 3, 3> E = sta<3, 3>(e); E.transpose(); mat_is(t, E, rm_t(e), 0, "static in place transpose");
	RM d3(3, 3); for (int i = 0; i < 3; ++i) d3(i, i) = sg;
	mat_is(t, th::mat<real, 3, 3>((real) sg), d3, 0, "static diagonal constructor");
	mat_is(t, th::mat<real, 3, 3>((real) sg, 3, 3), d3, 0, "static diagonal constructor with sizes");
	{ RM d23(2, 3), d42(4, 2); d23(0, 0) = d23(1, 1) = d42(0, 0) = d42(1, 1) = sg; mat_is(t, th::mat<real, 2, 3>((real) sg), d23, 0, "wide static diagonal constructor"); mat_is(t, th::mat<real, 4, 2>((real) sg), d42, 0, "tall static diagonal constructor"); mat_is(t, th::mat<real, 2, 3>(), RM(2, 3), 0, "a new static matrix is null"); mat_is(t, th::mat<real, 4, 2>((real) sg, 4, 2), d42, 0, "tall static diagonal constructor with sizes"); th::mat<real, 2, 3> I = alg::identity<th::mat<real, 2, 3>>(); RM i23(2, 3); i23(0, 0) = i23(1, 1) = 1; mat_is(t, I, i23, 0, "static identity"); mat_is(t, alg::identity<th::mat<real>>((unsigned) r, (unsigned) c), id, 0, "identity"); }
	th::mat<real> L = {{(real) sg, (real) 2, (real) 3}, {(real) 4, (real) 5, (real) 6}}; RM l(2, 3); l.v = {sg, 2, 3, 4, 5, 6}; mat_is(t, L, l, 0, "initializer list");
	th::mat<real, 2, 3> L2 = {{(real) sg, (real) 2, (real) 3}, {(real) 4, (real) 5, (real) 6}}; mat_is(t, L2, l, 0, "static initializer list");
	mat_is(t, alg::transpose<th::mat<real, 2, 3>, th::mat<real, 3, 2>>(L2), rm_t(l), 0, "static transpose");
}

LAW(predicates, 40000) {
	size_t r = t.sz(1, 5, 20), c = t.coin() ? r : t.sz(1, 5, 20); RM a(r, c);
	unsigned kind = (unsigned) t.choice(5);
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) {
		bool z = (kind == 1 && i != j) || (kind == 2 && j > i) || (kind == 3 && j < i) || (kind == 5 && t.chance(1, 2));
		a(i, j) = z ? 0 : (t.chance(1, 4) ? 0.0 : t.r(-5, 5)); if (std::fabs(std::fabs(a(i, j)) - 1e-12) < 1e-13) a(i, j) = 1;
	}
	if (kind == 4) for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < i && j < c; ++j) if (i < c) a(i, j) = a(j, i);
	NOTE(a); t.nontrivial(r > 1 && c > 1);
	bool sq = r == c, di = true, sy = sq, lo = sq, up = sq; size_t nz = 0;
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) {
		if (std::fabs(a(i, j)) > 1e-12) ++nz; if (a(i, j) != 0) { if (i != j) di = false; if (j > i) lo = false; if (j < i) up = false; }
		if (sq && a(i, j) != a(j, i)) sy = false;
	}
	th::mat<real> A = dyn(a);
	t.eq(alg::is_square(A), sq, "is_square"); t.eq(alg::is_diagonal(A), di, "is_diagonal"); t.eq(alg::is_symmetric(A), sy, "is_symmetric");
	t.eq(alg::is_lower_triangular(A), lo, "is_lower_triangular"); t.eq(alg::is_upper_triangular(A), up, "is_upper_triangular");
	t.close((double) alg::density(A), (ld) nz / (r * c), 1e-12, "density"); t.close((double) alg::sparsity(A), 1 - (ld) nz / (r * c), 1e-12, "sparsity");
	t.label_if(sy, "symmetric"); t.label_if(lo || up, "triangular"); t.label_if(di, "diagonal");
	// one element moved by more than the tolerance is noticed
	th::mat<real> B = A; size_t i = t.n(0, r - 1), j = t.n(0, c - 1); B(i, j) += (real) (t.coin() ? 1e-6 : -1e-6);
	t.check(A != B, "a single different element is noticed"); t.check(!alg::mat_equals(A, B, (real) 1e-9), "mat_equals with tolerance"); t.check(alg::mat_equals(A, B, (real) 1e-3), "mat_equals within tolerance");
}

LAW(complex_matrices, 30000) {
	size_t r = t.sz(1, 4, 14), c = t.sz(1, 4, 14), d = t.sz(1, 4, 14); const ld ua = gen_unit(t), ub = gen_unit(t);
	th::mat<cplx> A((unsigned) r, (unsigned) c), B((unsigned) c, (unsigned) d); std::vector<cld> a(r * c), b(c * d);
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { a[i * c + j] = ua * cld(t.r(-5, 5), t.r(-5, 5)); A(i, j) = cplx((real) a[i * c + j].real(), (real) a[i * c + j].imag()); }
	for (size_t i = 0; i < c; ++i) for (size_t j = 0; j < d; ++j) { b[i * d + j] = ub * cld(t.r(-5, 5), t.r(-5, 5)); B(i, j) = cplx((real) b[i * d + j].real(), (real) b[i * d + j].imag()); }
	t.nontrivial();
	auto cz = [&](cplx z, cld w, const char* m, ld e = 0) { t.close((double) z.a, w.real(), e, m); t.close((double) z.b, w.imag(), e, m); };
	auto P = A * B, H = alg::hermitian(A), Tt = alg::transpose(A);
	t.check(P.rows() == r && P.cols() == d, "complex product shape");
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < d; ++j) { cld s = 0; for (size_t k = 0; k < c; ++k) s += a[i * c + k] * b[k * d + j]; cz(P(i, j), s, "complex product", 1e-13L * (c + 2) * ua * ub); }
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { cz(H(j, i), std::conj(a[i * c + j]), "hermitian conjugate"); cz(Tt(j, i), a[i * c + j], "complex transpose"); }
	if (r == c) { auto M = A; alg::make_hermitian(M); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) cz(M(j, i), std::conj(a[i * c + j]), "make_hermitian"); }
	// sums, factors and traces
	{ auto A2 = A; cld k(t.r(-3, 3), t.coin() ? 0 : t.r(-3, 3)); cplx K((real) k.real(), (real) k.imag()); auto S = A * K, Q = K * A, D = A - S, U = A + S; A2 *= K; auto Hk = alg::hermitian(S), Vd = A / K; cld tr = 0;
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { cld x = a[i * c + j], y = x * k; const ld e = 1e-13L * ua; cz(S(i, j), y, "complex matrix times scalar", e); cz(Q(i, j), y, "complex scalar times matrix", e); cz(A2(i, j), y, "complex matrix scaled in place", e); cz(D(i, j), x - y, "complex difference", e); cz(U(i, j), x + y, "complex sum", e); cz(Hk(j, i), std::conj(y), "hermitian of a multiple", e); if (std::abs(k) > 1e-3) cz(Vd(i, j), x / k, "complex matrix divided by a scalar", e / std::abs(k)); if (i == j) tr += x; }
	cz(alg::trace(A), tr, "trace of a complex matrix", 1e-14L * (r + 2) * ua * 5); t.check(A == A && !(A != A), "equality of complex matrices"); size_t i = t.n(0, r - 1), j = t.n(0, c - 1); A2 = A; if (t.coin()) A2(i, j).b += (real) (ua * t.pick(std::vector<double>{-1, 1, 0.01})); else A2(i, j).a += (real) ua; t.check(ua < 1e-6 || A2 != A, "complex matrices with one different element"); }
	// vectors
	{ th::vec<cplx> x(c); std::vector<cld> w(c); for (size_t j = 0; j < c; ++j) { w[j] = ub * cld(t.r(-5, 5), t.r(-5, 5)); x[j] = cplx((real) w[j].real(), (real) w[j].imag()); } auto y = A * x; th::vec<cplx> z(r); for (auto& q : z) q = cplx((real) 2, (real) 1); alg::transform(z, A, x); for (size_t i = 0; i < r; ++i) { cld s = 0; for (size_t j = 0; j < c; ++j) s += a[i * c + j] * w[j]; cz(y[i], s, "complex matrix times vector", 1e-13L * (c + 2) * ua * ub); cz(z[i], s, "complex transform into destination", 1e-13L * (c + 2) * ua * ub); } }
	{ auto M = alg::mat_transpose_mul(Tt, B), N = alg::mat_mul_transpose(A, alg::transpose(B)); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < d; ++j) { cld s = 0; for (size_t k = 0; k < c; ++k) s += a[i * c + k] * b[k * d + j]; cz(M(i, j), s, "complex mat_transpose_mul", 1e-13L * (c + 2) * ua * ub); cz(N(i, j), s, "complex mat_mul_transpose", 1e-13L * (c + 2) * ua * ub); } }
}

LAW(matrix_text, 5000) {
	size_t r = t.n(1, 4), c = t.n(1, 4); th::mat<real> A((unsigned) r, (unsigned) c); std::string w;
	for (size_t i = 0; i < r; ++i) { w += "("; for (size_t j = 0; j < c; ++j) { int x = (int) t.i(-9, 9); A(i, j) = x; w += (j ? ", " : "") + std::to_string(x); } w += ")\n"; }
	t.note("expected", w); t.nontrivial(r > 1 && c > 1);
	t.eq(A.to_string(), w, "to_string");
	std::ostringstream o; o << A; t.eq(o.str(), w, "operator<<");
}

// Destinations which are also operands, factors of any magnitude
template<typename M> static void alias_laws(T& t, const M& A, const M& B, const RM& a, const RM& b, double k, double l) {
	auto tol = [&](const RM& w, double x, double y) { (void) w; return 4e-16L * (fabsl(x) * rm_max(a) + fabsl(y) * rm_max(b)); };
	RM s = rm_add(a, b, 1), d = rm_add(a, b, -1), c = rm_add(rm_scale(a, k), b, l), ka = rm_scale(a, k), two = rm_scale(a, 2);
	M r = A; alg::mat_sum(r, r, B); mat_is(t, r, s, tol(s, 1, 1), "mat_sum(A, A, B)"); r = B; alg::mat_sum(r, A, r); mat_is(t, r, s, tol(s, 1, 1), "mat_sum(B, A, B)"); r = A; alg::mat_sum(r, r, r); mat_is(t, r, two, 0, "mat_sum(A, A, A)"); r = A; alg::mat_sum(r, r); mat_is(t, r, two, 0, "mat_sum(A, A)"); r = A; r += r; mat_is(t, r, two, 0, "A += A");
	r = A; alg::mat_diff(r, r, B); mat_is(t, r, d, tol(d, 1, 1), "mat_diff(A, A, B)"); r = B; alg::mat_diff(r, A, r); mat_is(t, r, d, tol(d, 1, 1), "mat_diff(B, A, B)"); r = A; alg::mat_diff(r, r); mat_is(t, r, RM(a.r, a.c), 0, "mat_diff(A, A)"); r = A; r -= r; mat_is(t, r, RM(a.r, a.c), 0, "A -= A");
	r = A; alg::mat_lincomb(r, (real) k, r, (real) l, B); mat_is(t, r, c, tol(c, k, l), "mat_lincomb(A, k, A, l, B)"); r = B; alg::mat_lincomb(r, (real) k, A, (real) l, r); mat_is(t, r, c, tol(c, k, l), "mat_lincomb(B, k, A, l, B)"); r = A; alg::mat_lincomb((real) k, r, (real) l, r); mat_is(t, r, rm_add(rm_scale(a, k), a, l), 4e-16L * (fabsl(k) + fabsl(l)) * rm_max(a), "mat_lincomb(k, A, l, A)");
	r = A; alg::mat_scalmul(r, (real) k, r); mat_is(t, r, ka, tol(ka, k, 0), "mat_scalmul(A, k, A)"); r = A; alg::mat_scalmul((real) k, r); mat_is(t, r, ka, tol(ka, k, 0), "mat_scalmul(k, A)");
	r = A; r *= (real) k; mat_is(t, r, ka, tol(ka, k, 0), "A *= k"); mat_is(t, A * (real) k, ka, tol(ka, k, 0), "A * k"); mat_is(t, (real) k * A, ka, tol(ka, k, 0), "k * A");
	if (std::fabs(k) > 1e-14) { RM q = a; for (auto& x : q.v) x /= k; const ld e = 8e-16L * rm_max(a) / fabsl(k); mat_is(t, A / (real) k, q, e, "A / k"); r = A; r /= (real) k; mat_is(t, r, q, e, "A /= k"); }
	r = A; M& ref = r; r = ref; mat_is(t, r, a, 0, "A = A");
}
LAW(shared_operands_and_any_factor, 20000) {
	size_t r = t.sz(1, 5, 20), c = t.sz(1, 5, 20); int kind = (int) t.choice(3); if (kind == 1) r = c = 3; if (kind == 2) { r = 2; c = 3; } RM a = rm_scale(gen_rm(t, r, c), gen_unit(t)), b = rm_scale(gen_rm(t, r, c), gen_unit(t)); double k = t.chance(1, 8) ? 0 : t.rlogs(-40, 40), l = t.coin() ? t.rlogs(-40, 40) : t.r(-3, 3);
	NOTE(a); NOTE(b); NOTE(k); NOTE(l); t.nontrivial(); t.label(std::fabs(k) < 1e-16 ? "tiny factor" : std::fabs(k) > 1e16 ? "huge factor" : "moderate factor");
	if (kind == 1) alias_laws(t, sta<3, 3>(a), sta<3, 3>(b), a, b, k, l); else if (kind == 2) alias_laws(t, sta<2, 3>(a), sta<2, 3>(b), a, b, k, l); else alias_laws(t, dyn(a), dyn(b), a, b, k, l);
	if (r == c) { th::mat<real> A = dyn(a); A *= A; RM sq = rm_mul(a, a); mat_is(t, A, sq, 1e-15L * (c + 2) * c * rm_max(a) * rm_max(a), "A *= A"); A = dyn(a); mat_is(t, A * A, sq, 1e-15L * (c + 2) * c * rm_max(a) * rm_max(a), "A * A"); }
}
// Equality is that of all elements up to an absolute tolerance, whatever their magnitude
LAW(equality_tolerance, 20000) {
	size_t r = t.sz(1, 5, 20), c = t.sz(1, 5, 20); const double un = std::ldexp(1.0, (int) t.i(-20, 30)); RM a = rm_scale(gen_rm(t, r, c), un); size_t i = t.n(0, r - 1), j = t.n(0, c - 1); double tol = t.rlog(-12, 3), f = t.pick(std::vector<double>{0.01, 0.5, 0.9, 1.1, 2, 100}); RM b = a; b(i, j) += (t.coin() ? 1 : -1) * tol * f; double diff = std::fabs(a(i, j) - b(i, j));
	NOTE(a); NOTE(b); NOTE(tol); t.nontrivial(diff > 0); if (std::fabs(diff / tol - 1) < 1e-6) t.discard(); bool w = diff <= tol; t.label(w ? "within the tolerance" : "beyond the tolerance");
	t.eq(alg::mat_equals(dyn(a), dyn(b), (real) tol), w, "mat_equals"); t.eq(alg::mat_equals(dyn(b), dyn(a), (real) tol), w, "mat_equals, exchanged"); t.eq(alg::mat_equals(dyn(rm_t(a)), dyn(rm_t(b)), (real) tol), w, "mat_equals, transposed"); if (std::fabs(diff / (10 * 2.220446049250313e-16) - 1) > 0.5) t.eq(dyn(a) == dyn(b), diff < 10 * 2.220446049250313e-16, "==");
	if (r == c && r > 1 && i != j) { RM s = a; for (size_t p = 0; p < r; ++p) for (size_t q = 0; q < p; ++q) s(p, q) = s(q, p); t.check(alg::is_symmetric(dyn(s), (real) tol), "is_symmetric with a tolerance"); double x = s(i, j); s(i, j) += tol * f; double dd = std::fabs(s(i, j) - x); if (std::fabs(dd / tol - 1) > 1e-6) t.eq(alg::is_symmetric(dyn(s), (real) tol), dd <= tol, "is_symmetric with a tolerance"); }
}
// Rows of different lengths are refused, whichever row it is
LAW(ragged_rows, 3000) {
	double x = t.r(-5, 5); real X = (real) x; int k = (int) t.choice(7); NOTE(k); NOTE(x); t.nontrivial(); int err = 0; typedef th::mat<real> DM; typedef th::mat<real, 3, 2> SM;
	double v = with_errno(err, [&]() -> double { switch (k) {
		case 0: { DM m = {{X, X}, {X}}; return m.rows() && m.cols() ? (double) m(0, 0) : NAN; }
		case 1: { DM m = {{X, X}, {X, X}, {X}}; return m.rows() && m.cols() ? (double) m(0, 0) : NAN; }
		case 2: { DM m = {{X, X}, {X, X, X}}; return m.rows() && m.cols() ? (double) m(0, 0) : NAN; }
		case 3: { DM m = {{X}, {X, X}}; return m.rows() && m.cols() ? (double) m(0, 0) : NAN; }
		case 4: { SM m = {{X, X}, {X, X}}; return (double) m(0, 0); }
		case 5: { SM m = {{X, X}, {X, X}, {X}}; return (double) m(0, 0); }
		case 6: { SM m = {{X, X}, {X, X, X}, {X, X}}; return (double) m(0, 0); }
		default: { SM m = {{X, X}, {X, X}, {X, X}, {X, X}}; return (double) m(0, 0); }
	} });
	t.check(err != 0, "rows of different lengths are reported"); t.is_nan(v, "matrix from rows of different lengths");
}
