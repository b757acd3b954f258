// C25: pseudorandom and quasi-random sequences
#include "common.hpp"
#include <algorithm>
#include <map>
using namespace pbt;
typedef unsigned __int128 u128;
typedef uint64_t u64;
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 mix(u64 x) { u64 z = x + 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
// Reference generators, from the published algorithms
struct Ref {
	int kind; u64 x = 0, s[4] = {0, 0, 0, 0}, p1 = 0, p2 = 0;
	u64 next() {
		if (kind == 0) return x = (u64) (((u128) s[0] * x + s[1]) % s[2]);
		if (kind == 1) { u64 r = rotl(s[0] + s[3], 23) + s[0], t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return x = r; }
		if (kind == 2) return x = mix(x);
		if (kind == 3) { s[0] += p1; u128 m = (u128) (s[0] ^ p2) * s[0]; return x = (u64) (m >> 64) ^ (u64) m; }
		u64 q = x + s[0]; u128 m = (u128) q * q; return x = (u64) (m >> 32);
	}
};
static u64 word(T& t) { return t.chance(1, 4) ? t.pick(std::vector<u64>{0, 1, 2, ~0ULL, 1ULL << 63, 1ULL << 31, (1ULL << 31) - 1, (1ULL << 32) - 1}) : t.u64(); }
static const char* names[] = {"congruential", "xoshiro", "splitmix64", "wyrand", "middle square"};
static th::PRNG make(T& t, int kind, Ref& r) {
	r.kind = kind; u64 seed = word(t); NOTE(seed); u64 s1 = seed ? seed : 1; bool dflt = seed == 1 && t.coin();
	if (kind == 0) { seed %= (1ULL << 31) - 1; s1 = seed ? seed : 1; r.x = s1; r.s[0] = 48271; r.s[1] = 0; r.s[2] = (1ULL << 31) - 1; return th::PRNG::linear_congruential(seed); }
	if (kind == 1) { if (t.chance(1, 4)) { std::vector<u64> p(4); for (int i = 0; i < 4; ++i) r.s[i] = p[i] = word(t); NOTE(p); return th::PRNG::xoshiro(p); } r.s[0] = mix(s1); for (int i = 1; i < 4; ++i) r.s[i] = mix(r.s[i - 1]); return dflt ? th::PRNG::xoshiro() : t.coin() ? th::PRNG(seed) : th::PRNG::xoshiro(seed); }
	if (kind == 2) { r.x = s1; return dflt ? th::PRNG::splitmix64() : th::PRNG::splitmix64(seed); }
	if (kind == 3) { r.s[0] = s1; r.p1 = 2549536629329ULL; r.p2 = 136137137ULL; if (t.coin()) return th::PRNG::wyrand(seed); r.p1 = word(t); r.p2 = word(t); u64 p1 = r.p1, p2 = r.p2; NOTE(p1); NOTE(p2); if (r.p2 == 0) r.p2 = mix(s1); return th::PRNG::wyrand(seed, p1, p2); }
	r.x = seed ? seed : mix(765872292751861ULL); r.s[0] = 765872292751861ULL; if (t.coin()) return th::PRNG::middlesquare(seed); u64 off = word(t); NOTE(off); if (off) r.s[0] = off; return th::PRNG::middlesquare(seed, off);
}
// A history of operations on a generator and its copies, against the reference
LAW(histories, 60000) {
	int kind = (int) t.i(0, 4); Ref r; th::PRNG g = make(t, kind, r); t.label(names[kind]); size_t n = t.n(1, 30), seeds = 0; int err = 0;
	for (size_t i = 0; i < n; ++i) {
		int op = (int) t.i(0, 6); NOTE(op);
		switch (op) {
		case 0: t.eq(g(), r.next(), "value of a call"); break;
		case 1: t.eq(g.next(), r.next(), "next value"); break;
		case 2: { u64 a = 0, b = 0; g >> a >> b; t.eq(a, r.next(), "streamed value"); t.eq(b, r.next(), "second streamed value"); break; }
		case 3: { u64 k = t.n(0, 20); NOTE(k); g.discard(k); for (u64 j = 0; j < k; ++j) r.next(); break; }
		case 4: { th::PRNG c = g; Ref q = r; size_t k = t.n(1, 5); for (size_t j = 0; j < k; ++j) t.eq(c(), q.next(), "value of a copy"); break; }
		case 5: { u64 s = t.chance(1, 4) ? g.last() : word(t); if (kind == 0) s %= (1ULL << 31) - 1; if (s == 0) s = 7; NOTE(s); g.seed(s); ++seeds; if (kind == 1) { r.s[0] = mix(s); for (int j = 1; j < 4; ++j) r.s[j] = mix(r.s[j - 1]); } else if (kind == 3) r.s[0] = s; r.x = s; break; }
		default: { u64 v = g(); t.eq(v, r.next(), "value of a call"); t.eq(g.last(), v, "last value"); }
		}
		if (kind == 0) t.check(r.x < (1ULL << 31), "range of the congruential generator");
	}
	t.nontrivial(n > 4); t.label_if(seeds > 0, "seeded again"); for (int i = 0; i < 4; ++i) t.eq(g(), r.next(), "value after the history");
	errno = 0; (void) g(); err = errno; t.eq(err, 0, "a generator reported an error");
}
LAW(reseeding, 20000) {
	int kind = (int) t.i(0, 4); u64 seed = word(t); if (kind == 0) seed %= (1ULL << 31) - 1; if (seed == 0) seed = 3; NOTE(kind); NOTE(seed); t.label(names[kind]); t.nontrivial(true);
	auto mk = [&](u64 s) { return kind == 0 ? th::PRNG::linear_congruential(s) : kind == 1 ? th::PRNG::xoshiro(s) : kind == 2 ? th::PRNG::splitmix64(s) : kind == 3 ? th::PRNG::wyrand(s) : th::PRNG::middlesquare(s); };
	th::PRNG a = mk(seed), b = mk(kind == 0 ? 12345 : mix(seed)); size_t k = t.n(0, 40); b.discard(k); b.seed(seed); for (int i = 0; i < 8; ++i) t.eq(b(), a(), "the same seed starts the same sequence");
}
LAW(custom, 20000) {
	Ref r; r.kind = 0; u64 m = t.coin() ? t.n(2, 1000000) : t.u64() % (1ULL << 32) + 1, a = t.u64() % (m + 1), c = t.u64() % (m + 1), x = t.u64() % (1ULL << 31); NOTE(m); NOTE(a); NOTE(c); NOTE(x); r.s[0] = a; r.s[1] = c; r.s[2] = m; r.x = x; t.nontrivial(true); if (a > (1ULL << 32) / 2) a = r.s[0] = a / 2;
	t.eq(th::randgen_congruential(x, a, c, m), (u64) (((u128) a * x + c) % m), "congruential step"); th::PRNG g(th::randgen_congruential, x, {a, c, m}); for (int i = 0; i < 5; ++i) t.eq(g(), r.next(), "congruential generator"); t.check(g.get_param() == std::vector<u64>({a, c, m}), "parameters of the generator");
	g.set_param({a / 2, c, m}); r.s[0] = a / 2; t.eq(g(), r.next(), "generator with new parameters"); if (c > 0) { g.set_param(1, c - 1); r.s[1] = c - 1; t.eq(g(), r.next(), "generator with a new parameter"); }
	g.set_function(th::randgen_splitmix64); r.kind = 2; t.eq(g(), r.next(), "generator with a new function"); t.check(g.get_function() == static_cast<th::pseudorandom_function>(th::randgen_splitmix64), "function of the generator");
	int err; std::vector<u64> wrong(t.n(5, 6), 1); t.eq(with_errno(err, [&] { return th::randgen_xoshiro(1, wrong); }), (u64) 0, "xoshiro with a wrong state"); t.check(err != 0, "a wrong state is reported"); t.eq(with_errno(err, [&] { return th::randgen_wyrand(1, wrong); }), (u64) 0, "wyrand with a wrong state"); t.check(err != 0, "a wrong state is reported"); t.eq(with_errno(err, [&] { return th::randgen_congruential(1, wrong); }), (u64) 0, "congruential with a wrong state"); t.check(err != 0, "a wrong state is reported"); t.eq(with_errno(err, [&] { return th::randgen_middlesquare(1, wrong); }), (u64) 0, "middle square with a wrong state"); t.check(err != 0, "a wrong state is reported");
}
template<typename V> static void shuf(T& t, V v) {
	size_t n = v.size(); std::map<long long, int> a, b; for (size_t i = 0; i < n; ++i) ++a[(long long) v[i]]; V w = v; u64 seed = t.u64(); NOTE(seed); unsigned rounds = t.coin() ? 0 : (unsigned) t.n(1, 50); NOTE(rounds); th::PRNG g(seed), h(seed); int err; with_errno(err, [&] { th::shuffle(v, g, rounds); return 0; });
	if (n == 0) { t.check(err != 0, "shuffling nothing is reported"); return; } t.check(err == 0, "a shuffle reported an error"); t.eq((size_t) v.size(), n, "size after a shuffle"); for (size_t i = 0; i < n; ++i) ++b[(long long) v[i]]; t.check(a == b, "a shuffle is a permutation"); th::shuffle(w, h, rounds); for (size_t i = 0; i < n; ++i) t.check(w[i] == v[i], "the same seed gives the same shuffle"); t.eq(g(), h(), "the generators stay in step");
}
LAW(shuffling, 20000) { size_t n = t.n(0, 20); std::vector<int> v(n); th::vec<real> u((unsigned) n); for (size_t i = 0; i < n; ++i) { v[i] = (int) t.i(-5, 20); u[i] = (real) v[i]; } NOTE(v); t.nontrivial(n > 2); if (t.coin()) shuf(t, v); else shuf(t, u); }
// Every arrangement is reached with the same frequency
LAW(shuffle_uniform, 24) {
	size_t n = 3 + t.n(0, 1); u64 seed = t.u64(); NOTE(n); NOTE(seed); t.nontrivial(true); th::PRNG g(seed); std::map<std::vector<int>, size_t> c; size_t N = 60000; for (size_t k = 0; k < N; ++k) { std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = (int) i; th::shuffle(v, g, 40); ++c[v]; }
	size_t f = n == 3 ? 6 : 24; // an even number of exchanges of two indices drawn independently reaches every arrangement
	t.eq(c.size(), f, "arrangements which are reached"); ld e = (ld) N / f, chi = 0; for (auto& p : c) chi += (p.second - e) * (p.second - e) / e; t.check(chi < 120, "all arrangements are equally likely");
}

LAW(weyl, 40000) {
	unsigned n = (unsigned) (t.coin() ? t.n(0, 1000) : t.n(0, 2000000)); bool d = t.coin(); real alpha = (real) (d ? 0.6180339887498948482L : t.rlog(-3, 2)); NOTE(n); NOTE(alpha); t.nontrivial(n > 1); ld x = (ld) n * alpha, e = 2.3e-16L * (fabsl(x) + 1); auto circ = [&](ld got, ld want, const char* m) { t.check(got >= 0 && got < 1, "a quasi-random number is in [0, 1)"); ld f = fabsl(got - (want - floorl(want))); f = std::min(f, 1 - f); t.close(f, 0, 4 * 2.3e-16L * (fabsl(want) + 1), m); };
	circ(d ? th::qrand_weyl(n) : th::qrand_weyl(n, alpha), x, "element of the Weyl sequence"); (void) e;
	real b = (real) t.r(0.1, 0.99); NOTE(b); auto v2 = th::qrand_weyl2(n, b); circ(v2[0], (ld) n * b, "first coordinate"); circ(v2[1], (ld) n * ((ld) b * b), "second coordinate"); auto dv = th::qrand_weyl2(n); circ(dv[0], (ld) n * (real) 0.7548776662466927L, "first coordinate of the default sequence"); circ(dv[1], (ld) n * ((ld) (real) 0.7548776662466927L * (real) 0.7548776662466927L), "second coordinate of the default sequence");
	auto m = th::qrand_weyl_multi<4>(n, b); for (int i = 0; i < 4; ++i) circ(m[i], (ld) n * powl(b, i + 1), "coordinate in many dimensions");
	// The recurrence follows the sequence
	unsigned k = (unsigned) t.n(1, 40); real p = th::qrand_weyl_recurr(0, b); circ(p, b, "first element of the recurrence"); for (unsigned i = 2; i <= k; ++i) { p = th::qrand_weyl_recurr(p, b); ld w = (ld) i * b, f = fabsl(p - (w - floorl(w))); f = std::min(f, 1 - f); t.check(p >= 0 && p < 1, "an element of the recurrence is in [0, 1)"); t.close(f, 0, 1e-15L * i * i, "element of the recurrence"); }
}

// The generating functions on their own, at the edges of their words
LAW(steps, 60000) {
	u64 x = word(t), a = word(t), b = word(t), c = word(t), d = word(t); NOTE(x); NOTE(a); NOTE(b); NOTE(c); NOTE(d); t.nontrivial();
	{ Ref r; r.kind = 1; r.s[0] = a; r.s[1] = b; r.s[2] = c; r.s[3] = d; u64 p = a, q = b, s = c, z = d, v = th::randgen_xoshiro(p, q, s, z); t.eq(v, r.next(), "xoshiro step"); t.check(p == r.s[0] && q == r.s[1] && s == r.s[2] && z == r.s[3], "state after a xoshiro step"); std::vector<u64> st{a, b, c, d}; t.eq(th::randgen_xoshiro(x, st), v, "xoshiro step with a vector"); t.check(st == std::vector<u64>({p, q, s, z}), "state of a xoshiro vector"); }
	t.eq(th::randgen_splitmix64(x), mix(x), "splitmix64 step"); { std::vector<u64> st(t.n(0, 2), 5); t.eq(th::randgen_splitmix64(x, st), mix(x), "splitmix64 step with parameters"); }
	{ u64 s = x, n = x + a; u128 m = (u128) (n ^ b) * n; u64 w = (u64) (m >> 64) ^ (u64) m; t.eq(th::randgen_wyrand(s, a, b), w, "wyrand step"); t.eq(s, n, "state after a wyrand step"); std::vector<u64> st{x, a, b}; t.eq(th::randgen_wyrand(c, st), w, "wyrand step with a vector"); t.check(st == std::vector<u64>({n, a, b}), "state of a wyrand vector"); }
	{ u64 q = x + a; u64 w = (u64) (((u128) q * q) >> 32); t.eq(th::randgen_middlesquare(x, a), w, "middle square step"); std::vector<u64> st{a}; t.eq(th::randgen_middlesquare(x, st), w, "middle square step with a vector"); q = x + 765872292751861ULL; t.eq(th::randgen_middlesquare(x), (u64) (((u128) q * q) >> 32), "middle square step with the default offset"); }
	{ u64 y = x % ((1ULL << 31) - 1); t.eq(th::randgen_congruential(y), (u64) (((u128) 48271 * y) % ((1ULL << 31) - 1)), "congruential step with default parameters"); u64 m = t.n(1, 1u << 30), k = t.coin() ? m : t.u64() % (m + 1), e = t.coin() ? m : t.u64() % (m + 1); y %= (1ULL << 31); std::vector<u64> st{k, e, m}; NOTE(st); int err; u64 v = with_errno(err, [&] { return th::randgen_congruential(y, st); }); t.eq(v, (u64) (((u128) k * y + e) % m), "congruential step with a vector"); t.eq(err, 0, "valid parameters are accepted"); t.check(st == std::vector<u64>({k, e, m}), "parameters are kept");
		bool which = t.coin(); std::vector<u64> bad{which ? m + 1 + t.n(0, 9) : k, which ? e : m + 1 + t.n(0, 9), m}; t.eq(with_errno(err, [&] { return th::randgen_congruential(y, bad); }), (u64) 0, "congruential step with parameters above the modulus"); t.check(err != 0, "parameters above the modulus are reported"); }
	{ int err; size_t k = t.n(0, 7); std::vector<u64> st(k, 3), keep = st; NOTE(k); auto ask = [&](const char* n, size_t want, th::pseudorandom_function fn) { if (k == want) return; u64 v = with_errno(err, [&] { return fn(x, st); }); t.eq(v, (u64) 0, std::string(n) + " with a state of another size"); t.check(err != 0, std::string(n) + ": a state of another size is reported"); t.check(st == keep, std::string(n) + ": a state of another size is kept"); }; ask("xoshiro", 4, th::randgen_xoshiro); ask("wyrand", 3, th::randgen_wyrand); ask("congruential", 3, th::randgen_congruential); ask("middle square", 1, th::randgen_middlesquare); }
}
// Far along the sequence, and with generators which work side by side
LAW(long_sequences, 300) {
	int k1 = (int) t.i(0, 4), k2 = (int) t.i(0, 4); Ref r, q; th::PRNG g = make(t, k1, r), h = make(t, k2, q); NOTE(k1); NOTE(k2); t.label(names[k1]); t.nontrivial(); u64 far = t.chance(1, 3) ? t.n(65000, 140000) : t.n(100, 60000); NOTE(far); g.discard(far); for (u64 i = 0; i < far; ++i) r.next(); t.eq(g.last(), r.x, "number far along the sequence");
	for (int i = 0; i < 300; ++i) { if (t.coin()) t.eq(g(), r.next(), "first of two generators"); else t.eq(h(), q.next(), "second of two generators"); } th::PRNG c = g; g = h; t.eq(g(), Ref(q).next(), "an assigned generator"); for (int i = 0; i < 20; ++i) t.eq(c(), r.next(), "a copy made before the assignment"); t.eq(h(), q.next(), "the assigned generator's source");
}
// A shuffle of k rounds exchanges k pairs at most, and the default mixes large sets
LAW(shuffle_rounds, 10000) {
	size_t n = t.sz(1, 20, 250); unsigned rounds = (unsigned) t.n(1, 2 * n); u64 seed = t.u64(); std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = (int) i; th::PRNG g = t.coin() ? th::PRNG(seed) : th::PRNG::wyrand(seed); NOTE(n); NOTE(rounds); NOTE(seed); t.nontrivial(n > 3); int err; with_errno(err, [&] { th::shuffle(v, g, rounds); return 0; }); t.check(err == 0, "a shuffle reported an error");
	std::vector<bool> seen(n, false); size_t cyc = 0; for (size_t i = 0; i < n; ++i) { t.check(v[i] >= 0 && (size_t) v[i] < n, "an element of the set"); if (!seen[i]) { ++cyc; for (size_t j = i; !seen[j]; j = (size_t) v[j]) { seen[j] = true; t.check(v[j] >= 0 && (size_t) v[j] < n, "an element of the set"); } } } t.check(n - cyc <= rounds, "a round exchanges one pair"); std::vector<int> s = v; std::sort(s.begin(), s.end()); for (size_t i = 0; i < n; ++i) t.eq(s[i], (int) i, "a shuffle is a permutation");
	if (n >= 30) { std::vector<int> w(n); for (size_t i = 0; i < n; ++i) w[i] = (int) i; th::shuffle(w, g); size_t fixed = 0; for (size_t i = 0; i < n; ++i) fixed += w[i] == (int) i; t.check(fixed <= 18, "the default number of rounds mixes the set"); size_t half = 0; for (size_t i = 0; i < n / 2; ++i) half += (size_t) w[i] >= n / 2; t.close((ld) half, n / 4.0L, 4.5L * sqrtl((ld) n) / 1.5L, "elements which moved to the other half"); t.label("default rounds on a large set"); }
	if (n == 1) { th::PRNG a(seed); std::vector<int> o(1, 42); th::shuffle(o, a); t.eq(o[0], 42, "shuffling one element"); }
}
LAW(weyl_far, 30000) {
	unsigned n = t.coin() ? (unsigned) (t.u64() >> 32) : t.pick(std::vector<unsigned>{0, 1, 2, 65535, 65536, 65537, 2147483647u, 2147483648u, 4294967295u}); real al = (real) t.r(0.05, 1); NOTE(n); NOTE(al); t.nontrivial(n > 1000); auto circ = [&](ld got, ld want, ld e, const char* m) { t.check(got >= 0 && got < 1, "a quasi-random number is in [0, 1)"); ld f = fabsl(got - (want - floorl(want))); f = std::min(f, 1 - f); t.close(f, 0, 8 * 2.3e-16L * e * (fabsl(want) + 1), m); };
	circ(th::qrand_weyl(n), (ld) n * 0.6180339887498948482L, 1, "far element of the Weyl sequence"); circ(th::qrand_weyl(n, al), (ld) n * al, 1, "far element of a Weyl sequence"); auto v = th::qrand_weyl2(n, al); circ(v[0], (ld) n * al, 1, "far element in two dimensions"); circ(v[1], (ld) n * ((ld) al * al), 1, "far element in two dimensions"); auto m = th::qrand_weyl_multi<7>(n, al); for (int i = 0; i < 7; ++i) circ(m[i], (ld) n * powl(al, i + 1), i + 1, "far element in many dimensions"); auto o = th::qrand_weyl_multi<1>(n, al); circ(o[0], (ld) n * al, 1, "far element in one dimension");
	real p = (real) t.unit(); NOTE(p); if (p != 0) { circ(th::qrand_weyl_recurr(p, al), (ld) p + al, 1, "step of the recurrence"); circ(th::qrand_weyl_recurr(p), (ld) p + 0.6180339887498948482L, 1, "step of the default recurrence"); } circ(th::qrand_weyl_recurr(), 0.6180339887498948482L, 1, "first step of the default recurrence");
}

// The number of rounds of a shuffle is the one which was asked, and by default the square of the size less one
LAW(shuffle_draws, 1500) {
	size_t n = t.sz(1, 40, 260, 4); bool def = t.coin(); unsigned rounds = def ? 0 : (unsigned) t.n(1, 30000); u64 seed = t.u64(); NOTE(n); NOTE(rounds); NOTE(seed); t.nontrivial(n > 100 || rounds > 5000); u64 pairs = def ? (u64) (n - 1) * (n - 1) : rounds; std::vector<int> v(n), w(n); for (size_t i = 0; i < n; ++i) v[i] = w[i] = (int) i; th::PRNG g(seed), h(seed); th::shuffle(v, g, rounds); for (u64 k = 0; k < pairs; ++k) { size_t a = h() % n, b = h() % n; std::swap(w[a], w[b]); } if (pairs) t.eq(g(), h(), "numbers used by a shuffle"); t.check(v == w, "a shuffle exchanges the pairs which are drawn");
}
