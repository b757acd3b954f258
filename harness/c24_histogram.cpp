// C24: histograms
#include "common.hpp"
#include "linref.hpp"
#include <algorithm>
using namespace pbt;
typedef std::vector<ld> L;
struct Model {
	ld lo, hi; size_t bins; std::vector<real> in;
	bool inside(real x) const { return x >= lo && x <= hi; }
	ld pos(real x) const { return ((ld) x - lo) / (hi - lo) * bins; }
	// Bins which a value may fall in, allowing for rounding at the edges only
	void range(real x, size_t& a, size_t& b) const { if (hi == lo || x >= hi) { a = b = bins - 1; return; } ld p = pos(x), e = 1e-15L * (bins + 1) * (1 + (fabsl(lo) + fabsl(hi)) / (hi - lo) * 1e-3L); a = (size_t) std::max(0.0L, floorl(p - e)); b = (size_t) std::min((ld) bins - 1, floorl(p + e)); if (a > b) a = b; }
};
static void verify(T& t, th::histogram& h, const Model& m) {
	size_t n = m.in.size(); t.eq((size_t) h.number(), n, "number of data"); auto b = h.bins(); t.eq(b.size(), m.bins, "number of bins");
	std::vector<size_t> lo(m.bins, 0), hi(m.bins, 0); for (real x : m.in) { size_t p, q; m.range(x, p, q); for (size_t i = p; i <= q; ++i) ++hi[i]; if (p == q) ++lo[p]; size_t k = h.index(x); t.check(k >= p && k <= q, "bin of a datum"); }
	size_t sum = 0; for (size_t i = 0; i < m.bins; ++i) { t.check(b[i] >= lo[i] && b[i] <= hi[i], "count of a bin"); t.eq((size_t) h[i], (size_t) b[i], "access to a bin"); sum += b[i]; } t.eq(sum, n, "the bins contain all data");
	if (n == 0) return;
	ld mx = m.in[0], mn = m.in[0], s = 0, A = 0; for (real x : m.in) { mx = std::max(mx, (ld) x); mn = std::min(mn, (ld) x); s += x; A = std::max(A, fabsl(x)); } ld mu = s / n, ss = 0; for (real x : m.in) ss += ((ld) x - mu) * ((ld) x - mu);
	t.eq((double) h.max(), (double) mx, "largest datum"); t.eq((double) h.min(), (double) mn, "smallest datum"); t.eq((double) th::max(h), (double) mx, "largest datum"); t.eq((double) th::min(h), (double) mn, "smallest datum");
	ld e = 2.3e-16L * (n + 4); t.close(h.mean(), mu, 4 * e * A + 1e-300L, "mean"); t.close(th::stats::mean(h), mu, 4 * e * A + 1e-300L, "mean"); ld ts = 1e-300L + 8 * e * (ss + A * sqrtl(ss * n)) + n * (e * A) * (e * A); t.close(h.tss(), ss, ts, "total sum of squares"); t.close(th::stats::tss(h), ss, ts, "total sum of squares");
	int err; real v = with_errno(err, [&] { return th::stats::variance(h); }); if (n < 2) { t.is_nan(v, "variance of one datum"); t.check(err != 0, "the variance of one datum is reported"); } else { t.check(err == 0, "a variance reported an error"); t.close(v, ss / (n - 1), 2 * ts / (n - 1), "variance"); t.close(th::square(th::stats::stdev(h)), ss / (n - 1), 3 * ts / (n - 1), "standard deviation"); }
}
static void evaluate(T& t, th::histogram& h, const Model& m) {
	for (int k = 0; k < 6; ++k) { ld w = m.hi - m.lo; real x = (real) (k < 3 ? m.lo + w * t.unit() : k == 3 ? m.lo - w * t.r(0.001, 2) - (w == 0) : k == 4 ? m.hi + w * t.r(0.001, 2) + (w == 0) : t.coin() ? m.lo : m.hi); NOTE(x); real v = h(x); if (!m.inside(x)) t.eq((double) v, 0.0, "a histogram is zero out of its range"); else { size_t a, b; m.range(x, a, b); t.check((a <= b) && (v == h[a] || v == h[b]), "value of the histogram at a point"); } }
	t.eq((double) h((real) NAN), 0.0, "value of the histogram at NaN");
}
static void printed(T& t, th::histogram& h, const Model& m) {
	bool norm = t.coin(), low = t.coin(); std::string sep = t.pick(std::vector<std::string>{" ", ", ", "\t"}); std::string s = h.to_string(sep, norm, low); NOTE(s); size_t n = m.in.size(); if (n == 0) { t.eq(s, std::string(), "an empty histogram prints nothing"); return; }
	std::istringstream is(s); std::string line; size_t i = 0; while (std::getline(is, line)) { size_t p = line.find(sep); t.check(p != std::string::npos, "separator of a row"); ld x = strtold(line.c_str(), 0), c = strtold(line.c_str() + p + sep.size(), 0); ld w = (m.hi - m.lo) / m.bins, ex = m.lo + (i + (low ? 0 : 0.5L)) * w; t.close(x, ex, 1e-5L * (fabsl(ex) + fabsl(m.lo)) * 1.0L + 1e-15L * w, "abscissa of a row"); t.close(c, norm ? (ld) h[i] / n : (ld) h[i], 1e-5L * h[i] + (norm ? 0 : 0), "ordinate of a row"); ++i; } t.eq(i, m.bins, "one row for each bin");
	std::ostringstream o; o << h; t.eq(o.str(), h.to_string(), "streamed histogram");
}
static std::vector<real> data(T& t, size_t n) {
	int kind = (int) t.i(0, 4); ld off = t.chance(1, 4) ? (ld) t.rlogs(0, 6) : 0, mag = t.chance(1, 3) ? (ld) t.rlog(-20, 8) : 1; if (mag < 1e-6L) off = 0; std::vector<real> v(n); ld c = t.r(-3, 3); for (auto& x : v) x = (real) (off + mag * (kind == 0 ? (ld) t.i(-8, 8) : kind == 1 ? (ld) t.r(0, 1) : kind == 2 ? (ld) t.rlogs(-4, 2) : kind == 3 ? c : (ld) t.r(-50, 50))); return v;
}

LAW(from_data, 40000) {
	size_t n = t.n(1, t.chance(1, 8) ? 200 : 20); std::vector<real> v = data(t, n); size_t bins = t.coin() ? 0 : t.sz(1, 30, 400); NOTE(v); NOTE(bins); Model m; m.lo = *std::min_element(v.begin(), v.end()); m.hi = *std::max_element(v.begin(), v.end()); m.bins = bins ? bins : (size_t) floorl(sqrtl((ld) n)); m.in = v; bool flat = m.lo == m.hi; t.nontrivial(n > 3 && !flat); t.label_if(flat, "all data equal");
	int err; th::histogram h = with_errno(err, [&] { if (t.coin()) { th::vec<real> u((unsigned) n); for (size_t i = 0; i < n; ++i) u[i] = v[i]; return bins ? th::histogram(u, bins) : th::histogram(u); } return bins ? th::histogram(v, bins) : th::histogram(v); }); t.check(err == 0, "building a histogram reported an error");
	verify(t, h, m); evaluate(t, h, m); printed(t, h, m);
	size_t more = t.n(0, 6); for (size_t i = 0; i < more; ++i) { real x = (real) (m.lo + (m.hi - m.lo) * t.r(-0.5, 1.5)); NOTE(x); h.insert(x); if (m.inside(x)) m.in.push_back(x); } verify(t, h, m);
}
// A history of insertions, inside and outside the range, on an empty histogram
LAW(insertions, 40000) {
	Model m; m.bins = t.sz(1, 30, 400); ld scale = t.chance(1, 3) ? (ld) t.rlog(-18, 9) : 1, off = t.chance(1, 3) ? (ld) t.r(-100, 100) : 0; m.lo = (real) ((off + t.r(-5, 5)) * scale); m.hi = (real) ((off + t.r(5, 15)) * scale); if (t.chance(1, 3)) { m.lo = t.i(-8, 8); m.hi = m.lo + (ld) m.bins * t.pick(std::vector<ld>{0.25L, 0.5L, 1, 4}); t.label("edges without rounding"); } NOTE(m.lo); NOTE(m.hi); NOTE(m.bins);
	th::histogram h((unsigned) m.bins, (real) m.lo, (real) m.hi); verify(t, h, m); t.eq((double) h.mean(), 0.0, "mean of no data"); t.eq((double) h.tss(), 0.0, "sum of squares of no data"); size_t n = t.n(1, 25), out = 0;
	for (size_t i = 0; i < n; ++i) {
		ld w = m.hi - m.lo; real x; switch ((int) t.i(0, 7)) { case 0: x = (real) m.lo; break; case 1: x = (real) m.hi; break; case 2: x = std::nextafter((real) m.hi, (real) m.lo); break; case 3: x = (real) (m.lo + w * t.i(0, (long long) m.bins) / m.bins); break; case 4: x = (real) (m.lo - w * t.unit()); break; case 5: x = t.chance(1, 5) ? (real) NAN : (real) (m.hi + w * t.unit()); break; default: x = (real) (m.lo + w * t.unit()); }
		NOTE(x); h.insert(x); if (m.inside(x)) m.in.push_back(x); else ++out; if (t.chance(1, 4)) verify(t, h, m);
	}
	t.nontrivial(m.in.size() > 2 && out > 0); verify(t, h, m); evaluate(t, h, m); printed(t, h, m);
}
// The order of insertion does not matter, and neither does building from data or by insertion
LAW(same_contents, 20000) {
	size_t n = t.n(2, 30), bins = t.n(1, 12); std::vector<real> v = data(t, n); NOTE(v); NOTE(bins); real lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end()); t.nontrivial(lo < hi);
	th::histogram a(v, bins), b(bins, lo, hi), c(bins, lo, hi); for (real x : v) b.insert(x); for (size_t i = n; i-- > 0;) c.insert(v[i]); t.check(a.bins() == b.bins(), "bins by insertion"); t.check(a.bins() == c.bins(), "bins by insertion in reverse"); t.eq(a.number(), c.number(), "number of data"); t.eq((double) a.min(), (double) b.min(), "minimum"); t.eq((double) a.max(), (double) c.max(), "maximum");
	std::sort(v.begin(), v.end()); unsigned last = 0; for (real x : v) { unsigned k = a.index(x); t.check(k >= last && k < bins, "bins are ordered as the data"); last = k; }
}
LAW(nothing, 200) { std::vector<real> v; unsigned bins = (unsigned) t.n(0, 4); NOTE(bins); th::histogram h(v, bins); t.nontrivial(true); t.eq(h.number(), 0u, "histogram of no data"); t.eq(h.to_string(), std::string(), "text of no data"); int err; t.is_nan(with_errno(err, [&] { return th::stats::variance(h); }), "variance of no data"); t.check(err != 0, "the variance of no data is reported"); }

// Long histories: every datum is counted, whatever their number
LAW(long_history, 150) {
	Model m; m.bins = t.sz(1, 12, 3000, 3); m.lo = (real) t.r(-5, 0); m.hi = (real) t.r(1, 5); size_t n = t.chance(1, 6) ? t.n(76000, 90000) : t.n(200, 6000); bool all = t.chance(1, 3); NOTE(m.lo); NOTE(m.hi); NOTE(m.bins); NOTE(n); NOTE(all); t.nontrivial(); t.label_if(n > 65536, "more than 65536 data"); uint64_t s = t.u64(); ld w = m.hi - m.lo; auto next = [&] { s = s * 6364136223846793005ull + 1442695040888963407ull; return (ld) (s >> 11) / 9007199254740992.0L; }; real c = (real) (m.lo + w * next());
	std::vector<real> v; th::histogram h((unsigned) m.bins, (real) m.lo, (real) m.hi); for (size_t i = 0; i < n; ++i) { real x = all ? c : (real) (m.lo + w * (1.1L * next() - 0.05L)); h.insert(x); if (m.inside(x)) m.in.push_back(x); } verify(t, h, m); evaluate(t, h, m);
	th::histogram g(m.in, (unsigned) m.bins); Model k = m; k.lo = *std::min_element(m.in.begin(), m.in.end()); k.hi = *std::max_element(m.in.begin(), m.in.end()); verify(t, g, k); th::histogram d(m.in); k.bins = (size_t) floorl(sqrtl((ld) m.in.size())); verify(t, d, k);
}
// Copies are independent, and the same data in other units falls in the same bins
LAW(units, 30000) {
	size_t n = t.n(2, 30), bins = t.coin() ? t.sz(1, 12, 300) : 0; int p = (int) t.i(-160, 160); std::vector<real> v = data(t, n), u(n); for (size_t i = 0; i < n; ++i) u[i] = (real) ldexpl(v[i], p); real lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end()); NOTE(v); NOTE(bins); NOTE(p); t.nontrivial(lo < hi && p != 0); int err;
	th::histogram a(v, (unsigned) bins), b = with_errno(err, [&] { return th::histogram(u, (unsigned) bins); }); t.check(err == 0, "a histogram in other units reported an error"); t.check(a.bins() == b.bins(), "bins in other units"); t.eq((double) b.mean(), (double) ldexpl(a.mean(), p), "mean in other units"); t.eq((double) b.tss(), (double) ldexpl(a.tss(), 2 * p), "sum of squares in other units"); t.eq((double) b.max(), (double) ldexpl(a.max(), p), "maximum in other units"); t.eq((double) b.min(), (double) ldexpl(a.min(), p), "minimum in other units"); t.approx(th::stats::variance(b), ldexpl(th::stats::variance(a), 2 * p), 1e-15L, 0, "variance in other units"); t.approx(th::stats::stdev(b), ldexpl(th::stats::stdev(a), p), 1e-14L, 0, "deviation in other units");
	size_t more = t.n(1, 20); th::histogram c = a, d = b; std::vector<real> nw; for (size_t i = 0; i < more; ++i) { real x = (real) (lo + (hi - lo) * t.r(-0.3, 1.3)); c.insert(x); d.insert((real) ldexpl(x, p)); nw.push_back(x); } NOTE(nw); t.check(c.bins() == d.bins(), "insertions in other units"); t.eq(c.number(), d.number(), "insertions in other units"); t.eq((double) d.mean(), (double) ldexpl(c.mean(), p), "mean of insertions in other units"); t.eq((double) d.tss(), (double) ldexpl(c.tss(), 2 * p), "sum of squares of insertions in other units"); for (real x : nw) { t.eq((double) c(x), (double) d((real) ldexpl(x, p)), "value in other units"); if (x >= lo && x <= hi) t.eq(c.index(x), d.index((real) ldexpl(x, p)), "index in other units"); }
	th::histogram e(v, (unsigned) bins); t.check(e.bins() == a.bins() && e.number() == a.number(), "inserting in a copy left the original as it was"); t.eq((double) e.mean(), (double) a.mean(), "inserting in a copy left the mean as it was"); t.eq((std::string) c, c.to_string(), "text of a histogram"); d = a; t.check(d.bins() == a.bins() && d.number() == a.number(), "assigned histogram"); t.eq((double) d.tss(), (double) a.tss(), "assigned histogram");
}
// Infinite data is out of any range, and does not spoil the statistics
LAW(outside, 10000) {
	unsigned bins = (unsigned) t.n(1, 20); real lo = (real) t.r(-5, 5), hi = (real) (lo + t.rlog(-3, 3)); th::histogram h(bins, lo, hi); Model m; m.bins = bins; m.lo = lo; m.hi = hi; size_t n = t.n(1, 12); std::vector<real> xs; for (size_t i = 0; i < n; ++i) { real x; switch ((int) t.i(0, 6)) { case 0: x = th::inf(); break; case 1: x = -th::inf(); break; case 2: x = th::nan(); break; case 3: x = std::nextafter(hi, (real) 1e30); break; case 4: x = std::nextafter(lo, (real) -1e30); break; case 5: x = (real) t.rlogs(3, 300); break; default: x = (real) (lo + (hi - lo) * t.unit()); } xs.push_back(x); h.insert(x); if (m.inside(x)) m.in.push_back(x); } NOTE(lo); NOTE(hi); NOTE(bins); NOTE(xs); t.nontrivial(m.in.size() < n && !m.in.empty()); verify(t, h, m); for (real x : xs) if (!m.inside(x)) t.eq((double) h(x), 0.0, "value out of the range");
	// a range of a single value
	th::histogram s(bins, lo, lo); Model q; q.bins = bins; q.lo = q.hi = lo; for (real x : {lo, std::nextafter(lo, (real) 1e30), lo, std::nextafter(lo, (real) -1e30), hi}) { s.insert(x); if (q.inside(x)) q.in.push_back(x); } verify(t, s, q); t.eq((double) s(lo), 2.0, "value of a histogram of a single point");
}
