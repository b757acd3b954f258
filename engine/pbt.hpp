// A small choice-sequence based property-testing engine (C++14).
//
// Every random decision of a generated case goes through T::choice(), which
// records a bounded integer. A case is therefore completely described by its
// list of choices: replaying the list replays the case, and shrinking the list
// (deleting, zeroing and minimising entries) shrinks the case, whatever the
// generators built from it. Generators map smaller choices to simpler values.
//
// The runner forks one worker per (law, chunk). A worker keeps the choices of
// the case in flight in shared memory, so that a crash, a sanitizer report or
// a case that burns more than its CPU allowance is attributed to its input and
// shrunk exactly like an ordinary failure.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <limits>
#include <algorithm>
#include <type_traits>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

namespace pbt {

typedef long double ld;

struct Discard {};
struct Fail { std::string msg; };

inline uint64_t splitmix(uint64_t& s) {
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

const size_t SHM_MAX = 16384;
struct Shm {
	volatile uint64_t n;
	volatile uint64_t cases;
	uint64_t v[SHM_MAX];
};

template<typename X> struct Show {
	static std::string str(const X& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
};
template<> struct Show<bool> { static std::string str(bool b) { return b ? "true" : "false"; } };
template<typename X> struct Show<std::vector<X>> {
	static std::string str(const std::vector<X>& v) {
		std::string s = "[";
		for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + Show<X>::str(v[i]);
		return s + "]";
	}
};
template<typename X> std::string show(const X& x) { return Show<X>::str(x); }

// One generated case.
class T {
	uint64_t state;
	const std::vector<uint64_t>* replay;
	size_t pos = 0;
	Shm* shm;
public:
	std::vector<uint64_t> rec;
	bool verbose = false;
	bool nontriv = false;
	std::vector<std::string> notes;
	std::vector<const char*> labels;

	T(uint64_t seed, Shm* s) : state(seed), replay(nullptr), shm(s) { if (shm) shm->n = 0; }
	T(const std::vector<uint64_t>& r, Shm* s) : state(0), replay(&r), shm(s) { if (shm) shm->n = 0; }

	// Uniform choice in [0, bound]
	uint64_t choice(uint64_t bound) {
		uint64_t c = 0;
		if (replay) {
			if (pos < replay->size()) c = (*replay)[pos];
			++pos;
			if (c > bound) c = bound;
		} else {
			uint64_t r = splitmix(state);
			if (bound == UINT64_MAX) c = r;
			else c = (uint64_t)(((unsigned __int128) r * ((unsigned __int128) bound + 1)) >> 64);
		}
		if (rec.size() < SHM_MAX) {
			if (shm) { shm->v[rec.size()] = c; shm->n = rec.size() + 1; }
			rec.push_back(c);
		} else throw Discard();
		return c;
	}

	// ---- generators (smaller choice = simpler value) ----

	bool coin() { return choice(1) == 1; }
	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den) { return choice(den - 1) >= den - num; }

	// Integer in [lo, hi]: shrinks towards 0 when it is inside, else to the nearest end
	int64_t i(int64_t lo, int64_t hi) {
		if (lo > hi) std::swap(lo, hi);
		uint64_t span = (uint64_t) hi - (uint64_t) lo;
		uint64_t c = choice(span);
		if (lo >= 0) return (int64_t)((uint64_t) lo + c);
		if (hi <= 0) return (int64_t)((uint64_t) hi - c);
		uint64_t neg = (uint64_t)0 - (uint64_t) lo, posi = (uint64_t) hi;
		uint64_t m = std::min(neg, posi);
		if (c <= 2 * m) return (c & 1) ? -(int64_t)((c + 1) / 2) : (int64_t)(c / 2);
		uint64_t rest = c - m;
		return posi > neg ? (int64_t) rest : -(int64_t) rest;
	}
	size_t n(size_t lo, size_t hi) { return (size_t) i((int64_t) lo, (int64_t) hi); }
	// A size: mostly in [lo, hi], one time in `den` in (hi, big]
	size_t sz(size_t lo, size_t hi, size_t big, unsigned den = 24) { return chance(1, den) ? n(hi + 1, big) : n(lo, hi); }

	// 64-bit unsigned, magnitude-uniform with edge bias
	uint64_t u64() {
		switch (choice(3)) {
		case 0: return choice(64);
		case 1: { unsigned b = (unsigned) choice(63); return (1ull << b) - 1 + choice(2); }
		case 2: { unsigned b = (unsigned) choice(63); return choice((b == 63) ? UINT64_MAX : ((1ull << (b + 1)) - 1)); }
		default: return UINT64_MAX - choice(64);
		}
	}

	double unit() { return (double) choice((1ull << 53) - 1) / 9007199254740992.0; }

	// Real number in [lo, hi]
	double r(double lo, double hi) {
		switch (choice(14)) {
		case 0: case 1: case 2: { // integer-valued
			double a = std::ceil(lo), b = std::floor(hi);
			if (a <= b && std::fabs(a) < 1e15 && std::fabs(b) < 1e15) return (double) i((int64_t) a, (int64_t) b);
			return lo + unit() * (hi - lo);
		}
		case 3: case 4: case 5: { // short dyadic fraction
			double a = std::ceil(lo * 8), b = std::floor(hi * 8);
			if (a <= b && std::fabs(a) < 1e15 && std::fabs(b) < 1e15) return (double) i((int64_t) a, (int64_t) b) / 8.0;
			return lo + unit() * (hi - lo);
		}
		case 6: { // next to an integer
			double a = std::ceil(lo), b = std::floor(hi);
			if (a <= b && std::fabs(a) < 1e15 && std::fabs(b) < 1e15) { double x = (double) i((int64_t) a, (int64_t) b) + rlogs(-13, -2); return x < lo ? lo : (x > hi ? hi : x); }
			return lo + unit() * (hi - lo);
		}
		default: { double x = lo + unit() * (hi - lo); return x < lo ? lo : (x > hi ? hi : x); }
		}
	}
	// Uniform, no special shapes
	double ru(double lo, double hi) { double x = lo + unit() * (hi - lo); return x < lo ? lo : (x > hi ? hi : x); }
	// Strictly positive, log-uniform between 10^lo and 10^hi
	double rlog(double lo, double hi) { return std::pow(10.0, lo + unit() * (hi - lo)); }
	double rlogs(double lo, double hi) { double x = rlog(lo, hi); return coin() ? -x : x; }
	// Real bounded away from zero: |x| in [lo, hi]
	double rnz(double lo, double hi) { double x = r(lo, hi); return coin() ? -x : x; }

	template<typename X> const X& pick(const std::vector<X>& v) { return v[choice(v.size() - 1)]; }
	template<typename X, size_t N> const X& pick(const X (&v)[N]) { return v[choice(N - 1)]; }

	std::vector<double> reals(size_t n, double lo, double hi) {
		std::vector<double> v(n);
		for (auto& x : v) x = r(lo, hi);
		return v;
	}

	// ---- bookkeeping ----
	template<typename X> void note(const char* k, const X& x) {
		if (verbose) notes.push_back(std::string(k) + " = " + show(x));
	}
	void nontrivial(bool b = true) { if (b) nontriv = true; }
	void label(const char* l) { labels.push_back(l); }
	void label_if(bool c, const char* l) { if (c) labels.push_back(l); }
	[[noreturn]] void discard() { throw Discard(); }

	// ---- assertions ----
	[[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
	void check(bool c, const char* m) { if (!c) throw Fail{m}; }
	template<typename A, typename B> void eq(const A& got, const B& want, const std::string& m) {
		if (!(got == want)) throw Fail{std::string(m) + ": got " + show(got) + ", expected " + show(want)};
	}
	// |got - want| <= tol ; both NaN accepted; both the same infinity accepted
	void close(ld got, ld want, ld tol, const char* m) {
		if (std::isnan(got) && std::isnan(want)) return;
		if (got == want) return;
		if (!(std::fabs(got - want) <= tol) || std::isinf(got) != std::isinf(want)) {
			std::ostringstream o; o.precision(17);
			o << m << ": got " << (double) got << ", expected " << (double) want
			  << " (|difference| " << (double) std::fabs(got - want) << " > tolerance " << (double) tol << ")";
			throw Fail{o.str()};
		}
	}
	// mixed tolerance: abs + rel*|want|
	void approx(ld got, ld want, ld rel, ld abs_, const char* m) { close(got, want, abs_ + rel * std::fabs(want), m); }
	void close(ld got, ld want, ld tol, const std::string& m) { close(got, want, tol, m.c_str()); }
	void check(bool c, const std::string& m) { check(c, m.c_str()); }
	void approx(ld got, ld want, ld rel, ld abs_, const std::string& m) { approx(got, want, rel, abs_, m.c_str()); }
	void is_nan(ld x, const char* m) {
		if (!std::isnan(x)) { std::ostringstream o; o.precision(17); o << m << ": expected NaN, got " << (double) x; throw Fail{o.str()}; }
	}
	void finite(ld x, const char* m) {
		if (!std::isfinite(x)) { std::ostringstream o; o << m << ": not finite (" << (double) x << ")"; throw Fail{o.str()}; }
	}
};

#define NOTE(x) do { if (t.verbose) t.note(#x, x); } while (0)

typedef void (*LawFn)(T&);
struct Law { std::string name; LawFn fn; uint64_t cases; };
inline std::vector<Law>& laws() { static std::vector<Law> l; return l; }
struct Reg { Reg(const char* n, LawFn f, uint64_t c) { laws().push_back({n, f, c}); } };

// LAW(name, number of cases in the quick tier) { ... uses t ... }
#define LAW(NAME, CASES) \
	static void law_##NAME(pbt::T& t); \
	static pbt::Reg reg_##NAME(#NAME, law_##NAME, CASES); \
	static void law_##NAME(pbt::T& t)

// A known finding: a specific call that fails on the current tree. The probe
// returns true while the defect is present.
struct Finding { std::string id; bool (*probe)(); };
inline std::vector<Finding>& findings() { static std::vector<Finding> f; return f; }
struct RegF { RegF(const char* n, bool (*f)()) { findings().push_back({n, f}); } };
#define FINDING(ID) \
	static bool finding_##ID(); \
	static pbt::RegF regf_##ID(#ID, finding_##ID); \
	static bool finding_##ID()

inline std::set<std::string>& known_ids() { static std::set<std::string> s; return s; }
// true when `id` is listed in the known-findings file (so its inputs may be excluded)
inline bool known(const char* id) { return known_ids().count(id) != 0; }

// ------------------------------------------------------------------ runner

enum Outcome { PASS, FAIL_, DISCARD, CRASH, HANG };

inline std::string jesc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char) c;
	}
	return o;
}

struct Result { Outcome out; std::string msg; std::vector<std::string> notes; };

struct Runner {
	uint64_t seed = 1;
	double scale = 1;
	std::string outdir = ".";
	std::string only;
	unsigned jobs = 8;
	unsigned cpu_limit = 10;     // seconds of CPU for one case
	std::string config = "default";

	std::string tmp(const std::string& s) { return outdir + "/" + s; }

	static void arm(unsigned sec) {
		struct itimerval it; memset(&it, 0, sizeof it);
		it.it_value.tv_sec = sec;
		setitimer(ITIMER_PROF, &it, nullptr);
	}

	static Shm* shm_new() {
		return (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}

	static void quiet_child(const std::string& errfile) {
		int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		signal(SIGPROF, SIG_DFL);
	}

	static std::string head_of(const std::string& f) {
		std::ifstream in(f); std::string line, keep;
		while (std::getline(in, line)) {
			if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos
				|| line.find("Assertion") != std::string::npos || line.find("terminate") != std::string::npos
				|| line.find("what()") != std::string::npos) { keep += line + " "; if (keep.size() > 300) break; }
		}
		return keep.substr(0, 400);
	}

	// Run one case in a forked child
	Result try_case(const Law& law, const std::vector<uint64_t>& seq, bool verbose) {
		Result res; res.out = CRASH;
		std::string base = tmp("try." + std::to_string(getpid()));
		std::string rf = base + ".res", ef = base + ".err";
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p == 0) {
			quiet_child(ef);
			arm(cpu_limit);
			T t(seq, nullptr); t.verbose = verbose;
			std::string msg; char code = 'P';
			try { errno = 0; law.fn(t); } catch (Discard&) { code = 'D'; } catch (Fail& f) { code = 'F'; msg = f.msg; }
			catch (std::exception& e) { code = 'F'; msg = std::string("unexpected exception: ") + e.what(); }
			catch (...) { code = 'F'; msg = "unexpected exception of the library"; }
			arm(0);
			{
				std::ofstream o(rf); o << code << "\n" << jesc(msg) << "\n";
				for (auto& s : t.notes) o << jesc(s) << "\n";
			}
			_exit(0);
		}
		int st = 0; waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			std::ifstream in(rf); std::string l; std::getline(in, l);
			char c = l.empty() ? 'C' : l[0];
			res.out = c == 'P' ? PASS : c == 'D' ? DISCARD : c == 'F' ? FAIL_ : CRASH;
			std::getline(in, res.msg);
			while (std::getline(in, l)) res.notes.push_back(l);
		} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
			res.out = HANG; res.msg = "the case used more than " + std::to_string(cpu_limit) + " s of CPU without finishing";
		} else {
			res.out = CRASH;
			res.msg = "the case crashed (" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ") " + jesc(head_of(ef));
		}
		unlink(rf.c_str()); unlink(ef.c_str());
		return res;
	}

	static bool bad(Outcome o) { return o == FAIL_ || o == CRASH || o == HANG; }

	std::vector<uint64_t> shrink(const Law& law, std::vector<uint64_t> best, unsigned budget) {
		auto ok = [&](const std::vector<uint64_t>& c) {
			if (!budget) return false;
			--budget;
			Outcome o = try_case(law, c, false).out;
			return o == FAIL_ || o == CRASH;
		};
		bool progress = true;
		while (progress && budget) {
			progress = false;
			for (size_t chunk : {64, 16, 8, 4, 2, 1}) {
				for (size_t i = 0; i < best.size() && budget;) {
					size_t e = std::min(best.size(), i + chunk);
					std::vector<uint64_t> c(best.begin(), best.begin() + i);
					c.insert(c.end(), best.begin() + e, best.end());
					if (c.size() < best.size() && ok(c)) { best = c; progress = true; }
					else i += chunk;
				}
			}
			for (size_t chunk : {8, 2, 1}) {
				for (size_t i = 0; i < best.size() && budget; i += chunk) {
					std::vector<uint64_t> c = best; bool any = false;
					for (size_t j = i; j < std::min(best.size(), i + chunk); ++j) { if (c[j]) any = true; c[j] = 0; }
					if (any && ok(c)) { best = c; progress = true; }
				}
			}
			for (size_t i = 0; i < best.size() && budget; ++i) {
				uint64_t lo = 0, hi = best[i];
				unsigned steps = 0;
				while (lo < hi && budget && steps++ < 60) {
					uint64_t mid = lo + (hi - lo) / 2;
					std::vector<uint64_t> c = best; c[i] = mid;
					if (ok(c)) { best = c; hi = mid; progress = true; }
					else lo = mid + 1;
				}
			}
		}
		return best;
	}

	struct Job { size_t law; uint64_t chunk, from, count; };
	struct Running { Job job; Shm* shm; std::string base; };

	static uint64_t case_seed(uint64_t seed, const std::string& law, uint64_t idx) {
		uint64_t s = seed * 0xD1342543DE82EF95ull + hash_str(law);
		s ^= idx * 0x9E3779B97F4A7C15ull;
		uint64_t st = s; splitmix(st); return splitmix(st);
	}

	void worker(const Law& law, const Job& job, Shm* shm, const std::string& base) {
		quiet_child(base + ".err");
		uint64_t evals = 0, disc = 0;
		std::unordered_set<uint64_t> seen;
		std::map<std::string, uint64_t> labels;
		std::vector<std::string> samples;
		std::string failmsg; std::vector<uint64_t> failseq; bool failed = false;
		for (uint64_t k = 0; k < job.count && !failed; ++k) {
			uint64_t cs = case_seed(seed, law.name, job.from + k);
			if ((k & 15) == 0) arm(cpu_limit + 2);
			T t(cs, shm);
			shm->cases = k;
			try {
				errno = 0;
				law.fn(t);
				++evals;
			} catch (Discard&) { ++disc; continue; }
			catch (Fail& f) { failed = true; failmsg = f.msg; failseq = t.rec; ++evals; }
			catch (std::exception& e) { failed = true; failmsg = std::string("unexpected exception: ") + e.what(); failseq = t.rec; ++evals; }
			catch (...) { failed = true; failmsg = "unexpected exception of the library"; failseq = t.rec; ++evals; }
			for (auto l : t.labels) labels[l]++;
			if (t.nontriv) {
				uint64_t h = 0x51ed270b;
				for (uint64_t v : t.rec) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
				bool fresh = seen.insert(h).second;
				if (fresh && samples.size() < 2 && job.chunk == 0 && !failed && (k >= job.count / 3)) {
					T v(t.rec, nullptr); v.verbose = true;
					try { law.fn(v); } catch (...) {}
					std::string s = law.name + ": ";
					for (size_t i = 0; i < v.notes.size(); ++i) s += (i ? "; " : "") + v.notes[i];
					samples.push_back(s.substr(0, 600));
				}
			}
		}
		arm(0);
		{
			std::ofstream o(base + ".res");
			o << evals << " " << disc << "\n" << labels.size() << "\n";
			for (auto& l : labels) o << l.second << " " << l.first << "\n";
			o << samples.size() << "\n";
			for (auto& s : samples) o << jesc(s) << "\n";
			o << (failed ? 1 : 0) << "\n";
			if (failed) {
				o << jesc(failmsg) << "\n" << failseq.size();
				for (auto v : failseq) o << " " << v;
				o << "\n";
			}
			o << seen.size() << "\n";
			for (auto h : seen) o << h << "\n";
		}
		_exit(0);
	}

	struct LawStat { uint64_t evals = 0, disc = 0; std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };
	struct Failure { size_t law; std::vector<uint64_t> seq; std::string msg; bool hang; uint64_t from = 0, count = 0; };

	// Run a history of consecutive cases in one forked child; returns the index of the first
	// case which fails (or crashes), or -1. Used for failures which need what came before them.
	int64_t try_history(const Law& law, uint64_t from, uint64_t count, std::string& msg) {
		std::string base = tmp("hist." + std::to_string(getpid()));
		std::string rf = base + ".res", ef = base + ".err";
		Shm* s = shm_new(); s->n = 0; s->cases = 0;
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p == 0) {
			quiet_child(ef);
			int64_t at = -1; std::string m;
			for (uint64_t k = 0; k < count && at < 0; ++k) {
				if ((k & 15) == 0) arm(cpu_limit + 2);
				T t(case_seed(seed, law.name, from + k), nullptr);
				s->cases = k;
				try { errno = 0; law.fn(t); } catch (Discard&) {}
				catch (Fail& f) { at = (int64_t) k; m = f.msg; }
				catch (std::exception& e) { at = (int64_t) k; m = std::string("unexpected exception: ") + e.what(); }
				catch (...) { at = (int64_t) k; m = "unexpected exception of the library"; }
			}
			arm(0);
			{ std::ofstream o(rf); o << at << "\n" << jesc(m) << "\n"; }
			_exit(0);
		}
		int st = 0; waitpid(p, &st, 0);
		int64_t at = -1;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::ifstream in(rf); std::string l; in >> at; std::getline(in, l); std::getline(in, msg); }
		else if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)) { at = (int64_t) s->cases; msg = "the case crashed " + jesc(head_of(ef)); }
		munmap(s, sizeof(Shm)); unlink(rf.c_str()); unlink(ef.c_str());
		return at;
	}

	int run_all() {
		std::vector<Law>& L = laws();
		std::vector<Job> queue;
		for (size_t k = 0; k < L.size(); ++k) {
			if (!only.empty() && L[k].name != only) continue;
			uint64_t total = (uint64_t) std::max(1.0, std::ceil(L[k].cases * scale));
			uint64_t chunks = std::min<uint64_t>(std::max<uint64_t>(1, total / 400), scale > 1.5 ? 32 : 8);
			uint64_t per = (total + chunks - 1) / chunks;
			for (uint64_t c = 0; c < chunks; ++c) {
				uint64_t from = c * per; if (from >= total) break;
				queue.push_back({k, c, from, std::min(per, total - from)});
			}
		}
		// Interleave the chunks so that the slow laws do not end up last
		std::stable_sort(queue.begin(), queue.end(), [](const Job& a, const Job& b) { return a.chunk < b.chunk; });

		std::map<pid_t, Running> run;
		std::vector<LawStat> st(L.size());
		std::vector<Failure> fails;
		std::vector<Shm*> pool;
		size_t next = 0, serial = 0;
		std::set<size_t> failed_laws;

		while (next < queue.size() || !run.empty()) {
			while (next < queue.size() && run.size() < jobs) {
				Job j = queue[next++];
				if (failed_laws.count(j.law)) continue;
				Shm* s;
				if (pool.empty()) s = shm_new(); else { s = pool.back(); pool.pop_back(); }
				s->n = 0; s->cases = 0;
				std::string base = tmp("job." + std::to_string(getpid()) + "." + std::to_string(serial++));
				fflush(stdout); fflush(stderr);
				pid_t p = fork();
				if (p == 0) worker(L[j.law], j, s, base);
				run[p] = {j, s, base};
			}
			if (run.empty()) break;
			int stt = 0; pid_t p = waitpid(-1, &stt, 0);
			auto it = run.find(p);
			if (it == run.end()) continue;
			Running r = it->second; run.erase(it);
			LawStat& ls = st[r.job.law];
			if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && access((r.base + ".res").c_str(), R_OK) == 0) {
				std::ifstream in(r.base + ".res"); std::string line;
				uint64_t ev, di, nl; in >> ev >> di >> nl; ls.evals += ev; ls.disc += di;
				for (uint64_t k = 0; k < nl; ++k) { uint64_t c; in >> c; std::getline(in, line); ls.labels[line.substr(1)] += c; }
				uint64_t ns; in >> ns; std::getline(in, line);
				for (uint64_t k = 0; k < ns; ++k) { std::getline(in, line); ls.samples.push_back(line); }
				int f; in >> f; std::getline(in, line);
				if (f) {
					Failure fl; fl.law = r.job.law; fl.hang = false; fl.from = r.job.from; fl.count = r.job.count;
					std::getline(in, fl.msg);
					uint64_t n; in >> n; fl.seq.resize(n); for (auto& v : fl.seq) in >> v;
					if (failed_laws.insert(r.job.law).second) fails.push_back(fl);
				}
				uint64_t nh; in >> nh; for (uint64_t k = 0; k < nh; ++k) { uint64_t h; in >> h; ls.seen.insert(h); }
			} else {
				Failure fl; fl.law = r.job.law; fl.hang = WIFSIGNALED(stt) && WTERMSIG(stt) == SIGPROF;
				fl.seq.assign(r.shm->v, r.shm->v + r.shm->n);
				fl.msg = fl.hang ? "hang" : "crash"; fl.from = r.job.from; fl.count = r.job.count;
				ls.evals += r.shm->cases + 1;
				if (failed_laws.insert(r.job.law).second) fails.push_back(fl);
			}
			unlink((r.base + ".res").c_str()); unlink((r.base + ".err").c_str());
			pool.push_back(r.shm);
		}

		// Shrink and confirm (at most four laws in full; the rest are listed)
		int reported = 0;
		std::ofstream fo(tmp("failures.jsonl"));
		for (size_t q = 0; q < fails.size(); ++q) {
			Failure& f = fails[q];
			const Law& law = L[f.law];
			if (reported >= 4 && !getenv("PBT_ALL")) {
				fprintf(stderr, "[pbt] %s failed as well (not shrunk: enough violations reported)\n", law.name.c_str());
				continue;
			}
			Result first = try_case(law, f.seq, false);
			if (!bad(first.out)) {
				// Not from its own choices: does it fail again after the cases which came before it?
				std::string msg; uint64_t from = f.from, count = f.count;
				int64_t at = f.hang ? -1 : try_history(law, from, count, msg);
				if (at >= 0) {
					// Shorten the history from the front, keeping the failing end
					uint64_t end = from + (uint64_t) at + 1, len = (uint64_t) at + 1;
					for (uint64_t w = 1; w < len; w *= 2) {
						std::string m2; int64_t a2 = try_history(law, end - w, w, m2);
						if (a2 >= 0) { from = end - w; len = (uint64_t) a2 + 1; msg = m2; break; }
					}
					count = len;
					for (int k = 0; k < 2 && at >= 0; ++k) at = try_history(law, from, count, msg);
				}
				if (at < 0) {
					fprintf(stderr, "[pbt] %s: a failure did not reproduce from its choices nor from its history (%s); not reported\n", law.name.c_str(), f.msg.c_str());
					continue;
				}
				++reported;
				fo << "{\"law\": \"" << jesc(law.name) << "\", \"config\": \"" << jesc(config) << "\", \"message\": \"" << msg << " (depends on the calls made before: it fails after the preceding cases of the history, not alone)\", \"inputs\": [], \"history\": [" << seed << ", " << from << ", " << count << "]}\n";
				continue;
			}
			std::vector<uint64_t> best = f.seq;
			if (first.out != HANG) best = shrink(law, f.seq, q < 4 ? 1200 : 60);
			bool all = true; Result last;
			for (int k = 0; k < (first.out == HANG ? 1 : 3); ++k) { last = try_case(law, best, true); if (!bad(last.out)) all = false; }
			if (!all) {
				fprintf(stderr, "[pbt] %s: the shrunk failure is not deterministic; not reported\n", law.name.c_str());
				continue;
			}
			++reported;
			fo << "{\"law\": \"" << jesc(law.name) << "\", \"config\": \"" << jesc(config) << "\", \"message\": \"" << last.msg << "\", \"inputs\": [";
			for (size_t k = 0; k < last.notes.size(); ++k) fo << (k ? ", " : "") << "\"" << last.notes[k] << "\"";
			fo << "], \"choices\": [";
			for (size_t k = 0; k < best.size(); ++k) fo << (k ? ", " : "") << best[k];
			fo << "]}\n";
		}
		fo.close();

		// Known findings
		std::ofstream ko(tmp("findings.txt"));
		for (auto& fd : findings()) {
			if (!known(fd.id.c_str())) continue;
			fflush(stdout);
			pid_t p = fork();
			if (p == 0) { quiet_child("/dev/null"); arm(cpu_limit); bool b = true; try { errno = 0; b = fd.probe(); } catch (...) { b = true; } _exit(b ? 7 : 0); }
			int s2 = 0; waitpid(p, &s2, 0);
			bool present = !(WIFEXITED(s2) && WEXITSTATUS(s2) == 0);
			ko << fd.id << " " << (present ? "present" : "absent") << "\n";
		}
		ko.close();

		std::ofstream o(tmp("stats.json"));
		o << "{\"config\": \"" << jesc(config) << "\", \"laws\": [";
		bool firstl = true;
		for (size_t k = 0; k < L.size(); ++k) {
			if (!only.empty() && L[k].name != only) continue;
			if (!firstl) o << ","; firstl = false;
			o << "\n {\"law\": \"" << L[k].name << "\", \"evaluations\": " << st[k].evals << ", \"discarded\": " << st[k].disc
			  << ", \"distinct_nontrivial\": " << st[k].seen.size() << ", \"classes\": {";
			bool f1 = true;
			for (auto& l : st[k].labels) { o << (f1 ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; f1 = false; }
			o << "}, \"samples\": [";
			for (size_t s = 0; s < st[k].samples.size() && s < 2; ++s) o << (s ? ", " : "") << "\"" << st[k].samples[s] << "\"";
			o << "]}";
		}
		o << "]}\n";
		return reported ? 1 : 0;
	}
};

inline int main_(int argc, char** argv) {
	Runner R;
	std::string replay_law; std::vector<uint64_t> replay_seq, history; bool do_replay = false;
	for (int k = 1; k < argc; ++k) {
		std::string a = argv[k];
		auto next = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
		if (a == "--seed") R.seed = strtoull(next().c_str(), 0, 10);
		else if (a == "--scale") R.scale = atof(next().c_str());
		else if (a == "--out") R.outdir = next();
		else if (a == "--law") R.only = next();
		else if (a == "--jobs") R.jobs = (unsigned) atoi(next().c_str());
		else if (a == "--config") R.config = next();
		else if (a == "--known") { std::ifstream in(next()); std::string l; while (std::getline(in, l)) if (!l.empty()) known_ids().insert(l); }
		else if (a == "--list") { for (auto& l : laws()) printf("%s %llu\n", l.name.c_str(), (unsigned long long) l.cases); return 0; }
		else if (a == "--history") { replay_law = next(); std::istringstream in(next()); uint64_t v; while (in >> v) history.push_back(v); }
		else if (a == "--replay") { do_replay = true; replay_law = next(); std::istringstream in(next()); uint64_t v; while (in >> v) replay_seq.push_back(v); }
	}
	mkdir(R.outdir.c_str(), 0755);
	if (history.size() == 3) {
		for (auto& l : laws()) if (l.name == replay_law) {
			R.seed = history[0]; std::string m; int64_t at = R.try_history(l, history[1], history[2], m);
			if (at >= 0) printf("FAIL at case %lld of the history: %s\n", (long long) at, m.c_str()); else printf("PASS\n");
			return at >= 0 ? 1 : 0;
		}
		fprintf(stderr, "no such law\n"); return 2;
	}
	if (do_replay) {
		for (auto& l : laws()) if (l.name == replay_law) {
			Result r = R.try_case(l, replay_seq, true);
			for (auto& s : r.notes) printf("  %s\n", s.c_str());
			printf("%s %s\n", r.out == PASS ? "PASS" : r.out == DISCARD ? "DISCARD" : r.out == HANG ? "HANG" : r.out == CRASH ? "CRASH" : "FAIL", r.msg.c_str());
			return Runner::bad(r.out) ? 1 : 0;
		}
		fprintf(stderr, "no such law\n"); return 2;
	}
	return R.run_all();
}

} // namespace pbt

#endif
