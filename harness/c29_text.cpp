// C29: text representations and input / output utilities
#include "common.hpp"
#include <utility.h>
using namespace pbt;
typedef std::string S;

static S show(real x) { std::ostringstream o; o << x; return o.str(); }
static S part(real x, const S& unit) { return (x >= 0 ? " + " : " - ") + show(std::fabs(x)) + unit; }
static real num(T& t) { return t.chance(1, 4) ? (real) t.i(-3, 3) : t.chance(1, 4) ? (real) t.rlogs(-12, 12) : (real) t.r(-100, 100); }
template<typename X> static void streams(T& t, X x, const S& want) {
	std::ostringstream o; o << x; t.eq(o.str(), want, "streamed text"); t.eq(x.to_string(), want, "text"); S c = x; t.eq(c, want, "conversion to a string"); o << "|" << x; t.eq(o.str(), want + "|" + want, "text streamed again");
}
LAW(numbers, 3000) {
	int k = (int) t.i(0, 6); real a = num(t), b = num(t), c = num(t), d = num(t); NOTE(k); NOTE(a); NOTE(b); NOTE(c); NOTE(d); t.nontrivial(true);
	switch (k) {
	case 0: t.label("complex"); streams(t, th::complex<>(a, b), show(a) + (std::fabs(b) == 1 ? S(b >= 0 ? " + i" : " - i") : part(b, "i"))); break;
	case 1: t.label("dual"); streams(t, th::dual(a, b), show(a) + part(b, "e")); t.eq(th::dual(a, b).to_string("E"), show(a) + part(b, "E"), "text with another symbol"); break;
	case 2: t.label("dual2"); streams(t, th::dual2(a, b, c), show(a) + part(b, "e1") + part(c, "e2")); t.eq(th::dual2(a, b, c).to_string("p", "q"), show(a) + part(b, "p") + part(c, "q"), "text with other symbols"); break;
	case 3: t.label("quat"); streams(t, th::quat<>(a, b, c, d), show(a) + part(b, "i") + part(c, "j") + part(d, "k")); break;
	case 4: t.label("phasor"); streams(t, th::phasor<>(std::fabs(a), b), show(std::fabs(a)) + "/" + show(b)); break;
	case 5: t.label("multidual"); streams(t, th::multidual<2>(a, th::vec<real, 2>({b, c})), show(a) + " + (" + show(b) + ", " + show(c) + ")e"); break;
	default: { t.label("ratio"); long p = (long) t.i(-1000, 1000), q = (long) t.i(1, 1000); th::ratio<long> r(p, q); streams(t, r, std::to_string(r.num) + "/" + std::to_string(r.den)); }
	}
}
static S small0(real x) { return std::fabs(x) < th::MACH_EPSILON ? "0" : show(x); }
template<typename M> static void matrix(T& t, M m, size_t n, size_t k) {
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) m(i, j) = t.chance(1, 5) ? 0 : num(t);
	S sep = t.pick(std::vector<S>{", ", " ", ";", "\t"}), w1, w2; for (size_t i = 0; i < n; ++i) { S r, q; for (size_t j = 0; j < k; ++j) { r += (j ? ", " : "") + small0(m(i, j)); q += (j ? sep : "") + small0(m(i, j)); } w1 += "(" + r + ")\n"; w2 += q + "\n"; } NOTE(w1); t.nontrivial(n > 1 && k > 1); t.label_if(n == 1 || k == 1, "one row or column"); streams(t, m, w1);
	t.eq(m.to_string(sep, false), w2, "text without parentheses, a row on each line");
}
LAW(matrices, 1500) { if (t.coin()) { size_t n = t.sz(1, 5, 20, 6), k = t.sz(1, 5, 20, 6); matrix(t, th::mat<real>((unsigned) n, (unsigned) k), n, k); } else matrix(t, th::mat<real, 3, 2>(), 3, 2); }
template<typename V> static void vec_(T& t, V v, size_t n) {
	for (size_t i = 0; i < n; ++i) v[i] = num(t); S sep = t.pick(std::vector<S>{", ", " ", ";", "\t"}), a, b; for (size_t i = 0; i < n; ++i) { a += (i ? ", " : "") + show(v[i]); b += (i ? sep : "") + show(v[i]); } NOTE(a); t.nontrivial(n > 1); t.label_if(n == 0, "empty"); streams(t, v, "(" + a + ")"); t.eq(v.to_string(sep), "(" + b + ")", "text with another separator"); t.eq(v.to_string(sep, false), b, "text without parentheses");
}
LAW(vectors, 1500) { if (t.coin()) { size_t n = t.sz(0, 7, 40, 6); vec_(t, th::vec<real>((unsigned) n), n); } else if (t.coin()) vec_(t, th::vec<real, 4>(), 4); else { if (t.coin()) vec_(t, th::vec<real, 17>(), 17); else vec_(t, th::vec<real, 70>(), 70); } }
LAW(polynomials, 1500) {
	size_t n = t.sz(0, 6, 60, 6); th::polynomial<real> p; p.coeff.resize(n); for (size_t i = 0; i < n; ++i) p.coeff[i] = t.chance(1, 4) ? 0 : num(t); NOTE(p.coeff); t.nontrivial(n > 1); S w, u; bool any = false; for (size_t i = n; i-- > 0;) { real c = p.coeff[i]; if (std::fabs(c) < th::MACH_EPSILON) continue; any = true; S h = (c >= 0 ? "+ " : "- ") + show(std::fabs(c)); w += h + (i ? "*x^" + std::to_string(i) + " " : ""); u += h + (i ? "*t**" + std::to_string(i) + " " : ""); } if (!any) w = u = "0"; t.label_if(!any, "zero"); streams(t, p, w); t.eq(p.to_string("t", "**"), u, "text with other symbols");
}
LAW(solutions_of_one_equation, 600) {
	size_t n = t.sz(0, 6, 40, 6); th::ode::ode_solution1d s; s.t.resize(n); s.x.resize(n); S w, q, sep = t.pick(std::vector<S>{" ", ",", "\t"}); for (size_t i = 0; i < n; ++i) { s.t[i] = num(t); s.x[i] = num(t); w += show(s.t[i]) + " " + show(s.x[i]) + "\n"; q += show(s.t[i]) + sep + show(s.x[i]) + "\n"; } NOTE(w); t.nontrivial(n > 1); streams(t, s, w); t.eq(s.to_string(sep), q, "text with another separator");
	auto r = th::ode::solve_rk4([](real, real x) { return x; }, (real) 1, (real) 0, (real) 1, (real) 0.25); S u; for (size_t i = 0; i < r.t.size(); ++i) u += show(r.t[i]) + " " + show(r.x[i]) + "\n"; streams(t, r, u);
}
LAW(solutions, 800) {
	size_t n = t.sz(1, 6, 60, 6), k = t.sz(1, 3, 40, 6); th::ode::ode_solution_t<th::vec<real>> s; s.t.resize(n); s.x.resize(n); S w, sep = t.pick(std::vector<S>{" ", ",", "\t"}), q; for (size_t i = 0; i < n; ++i) { s.t[i] = num(t); s.x[i].resize(k); w += show(s.t[i]); q += show(s.t[i]); for (size_t j = 0; j < k; ++j) { s.x[i][j] = num(t); w += " " + show(s.x[i][j]); q += sep + show(s.x[i][j]); } w += "\n"; q += "\n"; } NOTE(w); t.nontrivial(n > 1); streams(t, s, w); t.eq(s.to_string(sep), q, "text with another separator");
	s.t.resize(n + 1); int err; S e = with_errno(err, [&] { return s.to_string(); }); t.eq(e, S(""), "text of an inconsistent solution"); t.check(err != 0, "an inconsistent solution is reported");
}

// Capture standard output and feed standard input
struct Out { std::ostringstream o; std::streambuf* b; Out() { b = std::cout.rdbuf(o.rdbuf()); } ~Out() { std::cout.rdbuf(b); } };
struct In { std::istringstream i; std::streambuf* b; In(const S& s) : i(s) { std::cin.clear(); b = std::cin.rdbuf(i.rdbuf()); } ~In() { std::cin.rdbuf(b); std::cin.clear(); } };
LAW(printing, 2000) {
	real a = num(t); int i = (int) t.i(-99, 99); S s = t.pick(std::vector<S>{"x", "", "two words"}); th::vec<real> v(2); v[0] = num(t); v[1] = num(t); th::complex<> z(num(t), num(t)); NOTE(a); NOTE(i); NOTE(s); t.nontrivial(true); S wa = show(a), wi = std::to_string(i), wv = v.to_string(), wz = z.to_string(); std::ostringstream f; S got, w;
	{ Out o; th::print(a); th::print("|"); th::print(a, i); th::print("|"); th::print(s, v, z, a); th::println(); th::println(a); th::println(a, s); th::println(z, v, i, s, a); got = o.o.str(); }
	w = wa + "|" + wa + " " + wi + "|" + s + " " + wv + " " + wz + " " + wa + "\n" + wa + "\n" + wa + " " + s + "\n" + wz + " " + wv + " " + wi + " " + s + " " + wa + "\n"; t.eq(got, w, "printed text");
	{ Out o; th::fprint(f, a); th::fprint(f, "|"); th::fprint(f, a, i); th::fprint(f, "|"); th::fprint(f, s, v, z, a); th::fprintln(f, ""); th::fprintln(f, a); th::fprintln(f, a, s); th::fprintln(f, z, v, i, s, a); got = o.o.str(); } t.eq(f.str(), w, "text printed to a stream"); t.eq(got, S(""), "printing to a stream wrote to standard output");
}
LAW(reading, 4000) {
	int mode = (int) t.i(0, 3); S term = mode == 0 ? "" : t.pick(std::vector<S>{"end", "0", "."}); size_t n = t.sz(0, 8, 400, 8); bool ended = t.coin(), nl = t.coin(); S text; std::vector<real> want; bool over = false; size_t bad = 0, empty = 0; auto number = [&](const S& l) { std::string q = l; for (auto& c : q) if (c == ',') c = '.'; return (real) std::stod(q); };
	for (size_t i = 0; i < n; ++i) { S l; switch (t.n(n > 8, 7)) { case 0: l = ""; break; case 1: l = t.pick(std::vector<S>{"abc", "-", "1e999", "e5", "nothing"}); break; case 2: l = std::to_string(t.i(-50, 50)) + "," + std::to_string(t.i(0, 99)); break; case 6: l = t.pick(std::vector<S>{" ", "\t", "+", ""}) + std::to_string(t.coin() ? t.i(1, 999999) : t.i(1, 4000000000000000)) + "," + std::to_string(t.i(1, 999999)) + t.pick(std::vector<S>{"", "e3", "E-2"}); break; case 7: { std::ostringstream o; o.precision(17); if (t.coin()) o << std::fixed << (real) t.rlogs(0, 25); else o << std::scientific << (real) t.rlogs(-290, 300); l = o.str(); break; } default: { std::ostringstream o; o.precision(17); o << num(t); l = o.str(); } } if (l == term) over = true; text += l + (i + 1 < n || nl || l.empty() ? "\n" : ""); if (over) continue; if (l.empty()) { ++empty; continue; } bool number_like = !(l == "abc" || l == "-" || l == "1e999" || l == "e5" || l == "nothing"); if (number_like) want.push_back(number(l)); else ++bad; }
	if (ended) { if (!text.empty() && text.back() != '\n') text += "\n"; text += term + "\n" + "77\n"; } NOTE(text); NOTE(term); NOTE(mode); t.nontrivial(want.size() > 1); t.label_if(!ended && !over && mode, "ends without the terminator"); t.label_if(bad > 0, "lines that are not numbers"); t.label_if(empty > 0, "empty lines");
	th::vec<real> got; S printed; { Out o; std::istringstream in(text); if (mode == 0) { if (t.coin()) got = th::readln(in); else { In c(text); got = th::readln(); } } else if (mode == 1) got = th::readln(in, term); else if (mode == 2) { In c(text); got = th::readln(term); } else got = th::readln<real>(in, term, [&](S l) { return 1 + number(l); }); printed = o.o.str(); }
	t.eq((size_t) got.size(), want.size(), "number of values read"); for (size_t i = 0; i < want.size(); ++i) t.eq((double) got[i], (double) (want[i] + (mode == 3)), "value read"); S w; for (size_t i = 0; i < bad; ++i) w += "Input conversion error\n"; t.eq(printed, w, "messages printed while reading");
}
