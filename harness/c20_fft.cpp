// C20: fast Fourier transform
#include "common.hpp"
#include "linref.hpp"
using namespace pbt;
typedef std::vector<cld> CV;
static const std::vector<int> PW{0, 1, 2, 3, 4, 5, 6, 7, 8};

static th::cvec gen(T& t, size_t n, int kind) {
	th::cvec x(n); size_t at = n ? t.n(0, n - 1) : 0; ld mag = t.chance(1, 6) ? t.rlog(-200, 200) : 1;
	for (size_t i = 0; i < n; ++i) {
		ld re, im;
		switch (kind) { case 0: re = i == at; im = 0; break; case 1: re = cosl(2 * PIl * at * i / n); im = sinl(2 * PIl * at * i / n); break; case 2: re = 1; im = -2; break; case 3: re = t.r(-5, 5); im = 0; break; default: re = t.r(-5, 5); im = t.r(-5, 5); }
		x[i] = cplx((real) (mag * re), (real) (mag * im));
	}
	return x;
}
static CV dft(const th::cvec& x, int sign) {
	size_t n = x.size(); CV r(n, cld(0, 0)), w(n); for (size_t i = 0; i < n; ++i) w[i] = std::polar<ld>(1, sign * 2 * PIl * i / n);
	for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < n; ++j) r[k] += cld(x[j].a, x[j].b) * w[(k * j) % n];
	return r;
}
static ld size(const th::cvec& x) { ld s = 0; for (size_t i = 0; i < x.size(); ++i) s += hypotl(x[i].a, x[i].b); return s; }
static std::string str(const th::cvec& x) { std::string s; for (size_t i = 0; i < x.size() && i < 16; ++i) s += show(x[i]) + " "; return s; }

LAW(transform, 30000) {
	size_t n = (size_t) 1 << t.pick(PW); int kind = (int) t.i(0, 4); auto x = gen(t, n, kind), keep = x; NOTE(n); NOTE(kind); t.note("x", str(x)); t.nontrivial(n > 2 && kind == 4); t.label_if(n <= 2, "length 1 or 2");
	int err; auto k = with_errno(err, [&] { return th::signal::fft(x); }); t.check(err == 0, "the transform of a power of two reported an error"); t.eq(k.size(), n, "length of the transform"); for (size_t i = 0; i < n; ++i) t.check(x[i].a == keep[i].a && x[i].b == keep[i].b, "the input is not modified");
	CV w = dft(x, -1); ld S = size(x), e = 4e-15L * (1 + log2l(n)) * S;
	for (size_t i = 0; i < n; ++i) { t.close(k[i].a, w[i].real(), e, "real part of the transform"); t.close(k[i].b, w[i].imag(), e, "imaginary part of the transform"); }
	auto inv = with_errno(err, [&] { return th::signal::ifft(x); }); t.check(err == 0, "the inverse transform reported an error"); w = dft(x, 1); auto inv2 = th::signal::fft(x, true);
	for (size_t i = 0; i < n; ++i) { t.close(inv[i].a, w[i].real() / n, e / n, "real part of the inverse transform"); t.close(inv[i].b, w[i].imag() / n, e / n, "imaginary part of the inverse transform"); t.check(inv2[i].a == inv[i].a && inv2[i].b == inv[i].b, "both forms of the inverse transform agree"); }
	// round trip, Parseval
	auto back = th::signal::ifft(k); for (size_t i = 0; i < n; ++i) { t.close(back[i].a, x[i].a, e, "round trip"); t.close(back[i].b, x[i].b, e, "round trip"); }
}

LAW(large_transforms, 400) {
	size_t n = (size_t) 1 << t.n(9, 13); int kind = (int) t.i(0, 1); size_t at = t.n(0, n - 1); th::cvec x(n); NOTE(n); NOTE(at); NOTE(kind); t.nontrivial();
	// a pure tone has a single line, a pulse has a flat spectrum
	for (size_t i = 0; i < n; ++i) { size_t ph = (at * i) % n; x[i] = kind ? cplx((real) cosl(2 * PIl * ph / n), (real) sinl(2 * PIl * ph / n)) : cplx((real) (i == at), 0); }
	auto k = th::signal::fft(x); ld e = 2e-14L * n * log2l(n);
	for (size_t i = 0; i < n; ++i) { size_t ph = (at * i) % n; ld re = kind ? (i == at ? (ld) n : 0) : cosl(2 * PIl * ph / n), im = kind ? 0 : -sinl(2 * PIl * ph / n); t.close(k[i].a, re, e, "spectrum of a tone or pulse"); t.close(k[i].b, im, e, "spectrum of a tone or pulse"); }
	auto b = th::signal::ifft(k); for (size_t i = 0; i < n; ++i) { t.close(b[i].a, x[i].a, e / n * 8, "round trip"); t.close(b[i].b, x[i].b, e / n * 8, "round trip"); }
}

LAW(other_lengths, 20000) {
	size_t n = t.n(0, 300); NOTE(n); th::cvec x(n); for (size_t i = 0; i < n && i < 8; ++i) x[i] = cplx((real) t.r(-2, 2), 1); bool pow2 = n && !(n & (n - 1)); t.nontrivial(!pow2 && n > 2); int err;
	auto k = with_errno(err, [&] { return th::signal::fft(x); }); t.eq(k.size(), n, "length of the transform");
	if (pow2) { t.check(err == 0, "a power of two is accepted"); return; }
	if (!n) return;
	bool nan = false; for (size_t i = 0; i < n; ++i) nan = nan || std::isnan((double) k[i].a); t.check(nan, "the transform of another length is NaN"); t.check(err != 0, "a length which is not a power of two is reported");
	k = with_errno(err, [&] { return th::signal::ifft(x); }); nan = false; for (size_t i = 0; i < n; ++i) nan = nan || std::isnan((double) k[i].a); t.check(nan && err != 0, "a length which is not a power of two is reported by the inverse");
}

template<unsigned N> static void fixed(T& t) {
	typedef th::vec<cplx, N> V; V x; th::cvec d(N); for (unsigned i = 0; i < N; ++i) { x[i] = cplx((real) t.r(-5, 5), (real) t.r(-5, 5)); d[i] = x[i]; } t.note("x", str(d)); t.nontrivial();
	V k = th::signal::fft<V>(x), b = th::signal::ifft<V>(x), c = th::signal::ifft<V>(d); th::cvec kd = th::signal::fft(d), bd = th::signal::ifft(d);
	for (unsigned i = 0; i < N; ++i) { t.check(k[i].a == kd[i].a && k[i].b == kd[i].b, "transform of a vector with fixed size"); t.check(b[i].a == bd[i].a && b[i].b == bd[i].b, "inverse transform of a vector with fixed size"); t.check(c[i].a == bd[i].a && c[i].b == bd[i].b, "inverse transform with a given type of result"); }
}
LAW(fixed_size, 10000) { switch (t.i(0, 3)) { case 0: fixed<1>(t); break; case 1: fixed<2>(t); break; case 2: fixed<8>(t); break; default: fixed<16>(t); } }

// Structured signals: each one exercises a symmetry that an implementation might be tempted to exploit
LAW(structured_signals, 10000) {
	size_t n = (size_t) 1 << t.pick(PW); int kind = (int) t.i(0, 9); th::cvec x(n), y(n); real u = std::ldexp((real) 1, (int) t.i(-300, 300)); NOTE(n); NOTE(kind); NOTE(u);
	for (size_t i = 0; i < n; ++i) { real a = (real) t.r(-5, 5), b = (real) t.r(-5, 5); switch (kind) { case 0: x[i] = cplx(0, b); break; case 1: x[i] = i < n / 2 ? cplx(a, b) : cplx(0, 0); break; case 2: x[i] = i % 2 ? cplx(0, 0) : cplx(a, b); break; case 3: x[i] = cplx((real) t.rlogs(-8, 8), (real) t.rlogs(-8, 8)); break; case 4: x[i] = i && i > n / 2 ? cplx(x[n - i].a, -x[n - i].b) : cplx(a, i == 0 || 2 * i == n ? 0 : b); break; case 5: x[i] = i && i > n / 2 ? x[n - i] : cplx(a, b); break; case 6: x[i] = cplx(i % 2 ? -1 : 1, 0); break; case 7: x[i] = t.chance(1, 4) ? cplx(a, b) : cplx(0, 0); break; case 8: x[i] = i >= n / 2 && n > 1 ? x[i - n / 2] : cplx(a, b); break; default: x[i] = cplx((real) t.i(-3, 3), (real) t.i(-3, 3)); } }
	t.note("x", str(x)); t.nontrivial(n > 2); int err; auto k = with_errno(err, [&] { return th::signal::fft(x); }), inv = th::signal::ifft(x); t.check(err == 0, "the transform reported an error"); CV w = dft(x, -1), v = dft(x, 1); ld e = 4e-15L * (1 + log2l(n)) * size(x);
	for (size_t i = 0; i < n; ++i) { t.close(k[i].a, w[i].real(), e, "real part of the transform of a structured signal"); t.close(k[i].b, w[i].imag(), e, "imaginary part of the transform of a structured signal"); t.close(inv[i].a, v[i].real() / n, e / n, "real part of the inverse transform of a structured signal"); t.close(inv[i].b, v[i].imag() / n, e / n, "imaginary part of the inverse transform of a structured signal"); y[i] = cplx(x[i].a * u, x[i].b * u); }
	auto ku = th::signal::fft(y), iu = th::signal::ifft(y); for (size_t i = 0; i < n; ++i) { t.close((ld) ku[i].a / u, k[i].a, 1e-15L * size(x), "transform in other units"); t.close((ld) ku[i].b / u, k[i].b, 1e-15L * size(x), "transform in other units"); t.close((ld) iu[i].a / u, inv[i].a, 1e-15L * size(x), "inverse transform in other units"); t.close((ld) iu[i].b / u, inv[i].b, 1e-15L * size(x), "inverse transform in other units"); }
	// the same call again, after others, gives the same answer
	auto again = th::signal::fft(x); for (size_t i = 0; i < n; ++i) t.check(again[i].a == k[i].a && again[i].b == k[i].b, "the transform depends on earlier calls");
}

// Up to a hundred thousand samples: a few tones and pulses, whose spectrum is known
LAW(very_large_transforms, 12) {
	size_t n = (size_t) 1 << t.n(14, 17), at = t.n(0, n - 1), pos = t.n(0, n - 1); th::cvec x(n); NOTE(n); NOTE(at); NOTE(pos); t.nontrivial(); for (size_t i = 0; i < n; ++i) { ld a = 2 * PIl * ((at * i) % n) / n; x[i] = cplx((real) (cosl(a) / n), (real) (sinl(a) / n)); } x[pos] = cplx(x[pos].a + 1, x[pos].b);
	int err; auto k = with_errno(err, [&] { return th::signal::fft(x); }); t.check(err == 0, "a large transform reported an error"); t.eq(k.size(), n, "length of a large transform"); ld e = 1e-13L * log2l(n) * sqrtl(n) * 4; for (size_t j = 0; j < n; ++j) { ld a = -2 * PIl * ((pos * j) % n) / n; t.close(k[j].a, cosl(a) + (j == at), e, "spectrum of a tone and a pulse"); t.close(k[j].b, sinl(a), e, "spectrum of a tone and a pulse"); }
	auto b = th::signal::ifft(k); for (size_t j = 0; j < n; ++j) { t.close(b[j].a, x[j].a, e, "round trip of a large transform"); t.close(b[j].b, x[j].b, e, "round trip of a large transform"); }
}
