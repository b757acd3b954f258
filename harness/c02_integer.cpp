// C02: integer, combinatorial, bit-level and rational operations are exact
#include "common.hpp"
#include <numeric>
using namespace pbt;
typedef unsigned __int128 u128;
typedef __int128 i128;

template<typename U> static void int_roots(T& t, U n) {
	u128 s = (u128) th::isqrt<U>(n), N = n;
	t.note("isqrt", (uint64_t) s);
	t.check(s * s <= N, "isqrt(n)^2 > n");
	t.check((s + 1) * (s + 1) > N, "(isqrt(n) + 1)^2 <= n");
	u128 c = (u128) th::icbrt<U>(n);
	t.note("icbrt", (uint64_t) c);
	t.check(c * c * c <= N, "icbrt(n)^3 > n");
	t.check((c + 1) * (c + 1) * (c + 1) > N, "(icbrt(n) + 1)^3 <= n");
}

LAW(integer_roots, 60000) {
	uint64_t n;
	switch (t.choice(3)) {
	case 0: n = t.u64(); break;
	case 1: { uint64_t r = t.u64() & 0xffffffffu; n = r * r; n += t.i(-1, 1); break; } // around a square
	case 2: { uint64_t r = t.u64() % 2642246; n = r * r * r; n += t.i(-1, 1); break; } // around a cube
	default: n = t.choice(1000);
	}
	NOTE(n);
	t.nontrivial(n > 1);
	t.label_if(n == UINT64_MAX, "largest value"); t.label_if(n > UINT64_MAX / 2, "upper half");
	int_roots<uint64_t>(t, n);
	int_roots<uint32_t>(t, (uint32_t) n);
}

LAW(integer_log_and_padding, 60000) {
	uint64_t x = t.u64(); if (x == 0) x = 1;
	if (t.coin()) x >>= t.choice(40);
	if (x == 0) x = 1;
	NOTE(x);
	t.nontrivial(x > 2);
	t.label_if((x & (x - 1)) == 0, "power of two"); t.label_if(x > (1ull << 31), "above 2^31");
	uint64_t l = th::ilog2<uint64_t>(x);
	t.check(l < 64, "ilog2 out of range");
	t.check((x >> l) == 1, "ilog2: 2^n is not the largest power of two not above x");
	if (x <= (1ull << 63)) {
		uint64_t p = th::pad2<uint64_t>(x), w = 1;
		while (w < x) w <<= 1;
		t.eq(p, w, "pad2<uint64_t>");
	}
	uint32_t y = (uint32_t) x;
	if (y && y <= (1u << 31)) {
		uint32_t w = 1; while (w < y) w <<= 1;
		t.eq(th::pad2<uint32_t>(y), w, "pad2<uint32_t>");
		t.eq((uint32_t) (y >> th::ilog2<uint32_t>(y)), 1u, "ilog2<uint32_t>");
	}
}

LAW(factorials, 20000) {
	unsigned n = (unsigned) t.n(0, 20); NOTE(n);
	t.nontrivial(n > 1);
	uint64_t w = 1; for (unsigned k = 2; k <= n; ++k) w *= k;
	t.eq(th::fact<uint64_t>(n), w, "fact");
	unsigned d = (unsigned) t.n(0, 33); t.note("d", d);
	uint64_t v = 1; for (unsigned k = d; k > 1; k -= 2) v *= k;
	t.eq((uint64_t) th::double_fact(d), v, "double_fact");
	unsigned m = (unsigned) t.n(0, 170); t.note("m", m);
	t.approx((double) th::fact<real>(m), tgammal((ld) m + 1), 1e-12, 0, "fact<real>");
	int64_t x = t.i(-30, 30); unsigned k = (unsigned) t.n(0, 11); NOTE(x); NOTE(k);
	int64_t f = 1, r = 1;
	for (unsigned i = 0; i < k; ++i) { f *= (x - (int64_t) i); r *= (x + (int64_t) i); }
	t.eq(th::falling_fact<int64_t>(x, k), f, "falling_fact");
	t.eq(th::rising_fact<int64_t>(x, k), r, "rising_fact");
	double y = t.r(-5, 5); ld fy = 1, ry = 1, my = 1;
	for (unsigned i = 0; i < k; ++i) { fy *= (y - (ld) i); ry *= (y + (ld) i); my *= std::fabs(y) + i; }
	t.close((double) th::falling_fact<real>((real) y, k), fy, 1e-13 * my, "falling_fact<real>");
	t.close((double) th::rising_fact<real>((real) y, k), ry, 1e-13 * my, "rising_fact<real>");
}

static u128 binom(unsigned n, unsigned m) { u128 r = 1; for (unsigned i = 1; i <= m; ++i) r = r * (n - m + i) / i; return r; }

LAW(binomials, 30000) {
	unsigned n = (unsigned) t.n(0, 55), m = (unsigned) t.n(0, n);
	NOTE(n); NOTE(m);
	t.nontrivial(m > 0 && m < n);
	t.label_if(n > 20, "n! exceeds 64 bits");
	t.eq((uint64_t) th::binomial_coeff(n, m), (uint64_t) binom(n, m), "binomial_coeff");
	t.eq((uint64_t) th::binomial_coeff(n, m), (uint64_t) th::binomial_coeff(n, n - m), "binomial_coeff is symmetric");
	if (n >= 1 && m >= 1 && m < n)
		t.eq((uint64_t) th::binomial_coeff(n, m), (uint64_t) (th::binomial_coeff(n - 1, m) + th::binomial_coeff(n - 1, m - 1)), "Pascal's rule");
	unsigned c = (unsigned) t.n(0, 27); t.note("c", c);
	t.eq((uint64_t) th::catalan(c), (uint64_t) (binom(2 * c, c) / (c + 1)), "catalan");
}

LAW(wide_multiplication, 60000) {
	uint64_t a = t.u64(), b = t.u64(), lo = 0, hi = 0;
	if (t.coin()) a = t.choice(UINT64_MAX);
	if (t.coin()) b = t.choice(UINT64_MAX);
	NOTE(a); NOTE(b);
	t.nontrivial(a > 1 && b > 1);
	u128 p = (u128) a * b;
	t.label_if((uint64_t)(p >> 64) != 0, "needs the high word");
	th::mul_uint128(a, b, lo, hi);
	t.eq(lo, (uint64_t) p, "mul_uint128 low word");
	t.eq(hi, (uint64_t)(p >> 64), "mul_uint128 high word");
	t.eq(th::mix_mum(a, b), (uint64_t) p ^ (uint64_t)(p >> 64), "mix_mum");
}

LAW(rotation, 60000) {
	uint64_t x = t.coin() ? t.u64() : t.choice(UINT64_MAX);
	unsigned i = (unsigned) t.n(1, 63); NOTE(x); NOTE(i);
	t.nontrivial(x != 0 && x != UINT64_MAX);
	uint64_t w = 0; for (unsigned k = 0; k < 64; ++k) if (x >> k & 1) w |= 1ull << ((k + i) % 64);
	t.eq(th::bit_rotate<uint64_t>(x, i), w, "bit_rotate<uint64_t>");
	t.eq(th::bit_rotate<uint64_t>(th::bit_rotate<uint64_t>(x, i), 64 - i), x, "rotating all the way round");
	uint32_t y = (uint32_t) x; unsigned j = i % 31 + 1; uint32_t v = 0;
	for (unsigned k = 0; k < 32; ++k) if (y >> k & 1) v |= 1u << ((k + j) % 32);
	t.eq(th::bit_rotate<uint32_t>(y, j), v, "bit_rotate<uint32_t>");
}

LAW(bit_reversal_permutation, 20000) {
	unsigned m = (unsigned) t.n(0, 9);
	size_t n = size_t(1) << m;
	NOTE(m);
	th::vec<real> v(n); for (size_t k = 0; k < n; ++k) v[k] = (real) k;
	t.nontrivial(m > 1);
	th::swap_bit_reverse(v, m);
	for (size_t k = 0; k < n; ++k) {
		size_t r = 0; for (unsigned b = 0; b < m; ++b) if (k >> b & 1) r |= size_t(1) << (m - 1 - b);
		if ((size_t) v[k] != r) t.fail("swap_bit_reverse: element " + std::to_string(k) + " is " + std::to_string((size_t) v[k]) + ", expected " + std::to_string(r));
	}
	th::swap_bit_reverse(v, m);
	for (size_t k = 0; k < n; ++k) t.eq((size_t) v[k], k, "swap_bit_reverse twice is the identity");
}

// value of a fraction as an exact pair
static bool same(i128 an, i128 ad, i128 bn, i128 bd) { return an * bd == bn * ad; }

LAW(ratios_are_a_field, 60000) {
	typedef th::ratio<int64_t> Q;
	auto g = [&] { int64_t n = t.i(-2000, 2000), d = t.i(1, 2000); if (t.coin()) d = -d; return Q(n, d); };
	Q a = g(), b = g();
	t.note("a", std::to_string(a.num) + "/" + std::to_string(a.den)); t.note("b", std::to_string(b.num) + "/" + std::to_string(b.den));
	t.nontrivial(a.num != 0 && b.num != 0 && a.den != b.den);
	Q s = a + b, d = a - b, p = a * b;
	t.check(same(s.num, s.den, (i128) a.num * b.den + (i128) b.num * a.den, (i128) a.den * b.den), "sum of ratios");
	t.check(same(d.num, d.den, (i128) a.num * b.den - (i128) b.num * a.den, (i128) a.den * b.den), "difference of ratios");
	t.check(same(p.num, p.den, (i128) a.num * b.num, (i128) a.den * b.den), "product of ratios");
	if (b.num != 0) { Q q = a / b; t.check(same(q.num, q.den, (i128) a.num * b.den, (i128) a.den * b.num), "quotient of ratios"); }
	int64_t k = t.i(-50, 50); if (k == 0) k = 1;
	Q m = a * k, w = a / k;
	t.check(same(m.num, m.den, (i128) a.num * k, a.den), "ratio times factor");
	t.check(same(w.num, w.den, a.num, (i128) a.den * k), "ratio divided by factor");
	t.approx((double) a.template eval_as<real>(), (ld) a.num / a.den, 1e-14, 0, "eval_as<real>");
	t.eq(a.eval(), a.num / a.den, "eval");
	t.eq(a.to_string(), std::to_string(a.num) + "/" + std::to_string(a.den), "to_string");
	th::ratio<real> r((real) t.r(-10, 10), (real) t.rnz(0.5, 10)), u((real) t.r(-10, 10), (real) t.rnz(0.5, 10));
	t.approx((double) (r + u).eval(), (ld) r.eval() + u.eval(), 1e-12, 1e-12, "real ratio sum");
	t.approx((double) (r * u).eval(), (ld) r.eval() * u.eval(), 1e-12, 1e-12, "real ratio product");
}
