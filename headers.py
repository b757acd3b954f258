"""Generated translation units: any headers, in any order, under any configuration,
compiled by either compiler, linked together and run against known answers."""
import os, random, subprocess, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
from snippets import S

PRE = r'''
#include <cstdio>
#include <limits>
#include <vector>
#include <sstream>
typedef theoretica::real R;
namespace {
typedef long double L;
void c_(L got, L want, L tol, int line, const char* what) {
	L e = got > want ? got - want : want - got, s = want < 0 ? -want : want;
	if (!(e <= tol * (s > 1 ? s : 1))) std::printf("WRONG %s: got %.12Lg, expected %.12Lg\n", what, got, want);
}
template<typename A, typename B> void c2_(A got, B want, const char* w, L tol = sizeof(R) == 4 ? 2e-4L : 1e-7L) { c_((L) got, (L) want, tol, 0, w); }
}
#define C1(g, w) c2_(g, w, #g)
#define C3(g, w, t) c2_(g, w, #g, t)
#define PICK(a, b, c, n, ...) n
#define C(...) PICK(__VA_ARGS__, C3, C1, C1)(__VA_ARGS__)
#define K(x) do { if (!(x)) std::printf("WRONG %s\n", #x); } while (0)
#define NOTFLOAT(x) do { if (sizeof(R) > 4) x; } while (0)
'''
LIB = ["<cmath>", "<cstdlib>", "<algorithm>", "<complex>", "<vector>", "<string>", "<iostream>", "<functional>"]
MACROS = ["THEORETICA_NO_PRINT", "THEORETICA_NO_NAMESPACE_ALIAS", "THEORETICA_BRANCHLESS", "THEORETICA_DISABLE_X86", "THEORETICA_ROW_FIRST",
          "THEORETICA_OPTIMIZATION_BISECTION_ITER=150", "THEORETICA_CALCULUS_INTEGRAL_STEPS=250", "THEORETICA_STATISTICS_METROPOLIS_DEPTH=8",
          "THEORETICA_ALGEBRA_EIGEN_ITER=200", "THEORETICA_CORE_TAYLOR_ORDER=14", "THEORETICA_OPTIMIZATION_NEWTON_ITER=200"]
PRECS = [None, None, None, "THEORETICA_FLOAT_PREC", "THEORETICA_LONG_DOUBLE_PREC"]
ERRS = [None, None, "THEORETICA_THROW_EXCEPTIONS", "THEORETICA_ONLY_EXCEPTIONS"]


def generate(rng, headers, force=None):
    def tu():
        k = rng.choice([1, 1, 2, 3, 5, 8])
        return rng.sample(headers, min(k, len(headers)))
    macros = []
    if rng.random() < 0.7:
        p, e = rng.choice(PRECS), rng.choice(ERRS)
        macros = [m for m in (p, e) if m] + rng.sample(MACROS, rng.choice([0, 1, 1, 2, 4]))
    c = {"tus": [[force] if force else tu()], "cxx": rng.choice(["g++", "clang++"]), "std": rng.choice(["14", "14", "17", "20"]),
         "opt": rng.choice(["-O0", "-O1"]), "openmp": rng.random() < 0.3, "macros": sorted(macros),
         "lib": rng.sample(LIB, rng.choice([0, 0, 1, 2]))}
    if rng.random() < (0.35 if force else 0.6):
        c["tus"].append(tu())
    if c["cxx"] == "clang++":
        c["openmp"] = False
    return c


def text(case, k):
    hs = case["tus"][k]
    noprint = "THEORETICA_NO_PRINT" in case["macros"]
    o = "".join("#include %s\n" % l for l in case["lib"])
    o += "".join('#include "%s"\n' % h for h in hs)
    if hs == ["core/ratio.h"]:
        o += "namespace theoretica { typedef double real; }\n"
    o += PRE
    o += "void use%d() {\n" % k + "".join("%s\n" % S[h] for h in hs if h in S) + "}\n"
    if k == 0:
        o += "".join("void use%d();\n" % i for i in range(len(case["tus"])))
        o += "int main() { " + " ".join("use%d();" % i for i in range(len(case["tus"]))) + ' std::printf("done\\n"); return 0; }\n'
    return o


def attempt(case, repo, work):
    """None when all is well, or what went wrong"""
    key = hashlib.sha1(repr(case).encode()).hexdigest()[:16]
    base = os.path.join(work, key)
    objs = []
    flags = ["-std=c++" + case["std"], case["opt"], "-w", "-I" + os.path.join(repo, "src")] + ["-D" + m for m in case["macros"]]
    if case["openmp"]:
        flags.append("-fopenmp")
    try:
        for k in range(len(case["tus"])):
            src, obj = "%s-%d.cpp" % (base, k), "%s-%d.o" % (base, k)
            open(src, "w").write(text(case, k))
            r = subprocess.run([case["cxx"]] + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
            if r.returncode:
                e = [l for l in r.stderr.splitlines() if "error" in l]
                return "does not compile: " + (e[0] if e else r.stderr[-300:])[:300]
            objs.append(obj)
        exe = base + ".exe"
        r = subprocess.run([case["cxx"]] + flags + objs + ["-o", exe], capture_output=True, text=True)
        if r.returncode:
            e = [l for l in r.stderr.splitlines() if "error" in l or "definition" in l or "undefined" in l]
            return "does not link: " + (e[0] if e else r.stderr[-300:])[:300]
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return "does not finish"
        if r.returncode or not r.stdout.endswith("done\n"):
            return "the program ends with status %d: %s" % (r.returncode, (r.stdout + r.stderr)[-300:])
        w = [l for l in r.stdout.splitlines() if l.startswith("WRONG")]
        if w:
            return "wrong result: " + w[0][6:]
        return None
    finally:
        for f in glob.glob(base + "*"):
            os.remove(f)


def reductions(c):
    """simpler cases, boldest first"""
    for k in range(len(c["tus"])):
        if len(c["tus"]) > 1:
            yield dict(c, tus=c["tus"][:k] + c["tus"][k + 1:])
    for key, v in (("macros", []), ("lib", []), ("openmp", False), ("cxx", "g++"), ("std", "14"), ("opt", "-O0")):
        if c[key] != v:
            yield dict(c, **{key: v})
    for key in ("macros", "lib"):
        for i in range(len(c[key])):
            yield dict(c, **{key: c[key][:i] + c[key][i + 1:]})
    for k, t in enumerate(c["tus"]):
        for i in range(len(t)):
            if len(t) > 1:
                yield dict(c, tus=c["tus"][:k] + [t[:i] + t[i + 1:]] + c["tus"][k + 1:])


def kind(msg):
    return msg.split(":")[0]


def shrink(case, msg, repo, work, limit=150):
    best, bmsg, n = case, msg, 0
    progress = True
    while progress and n < limit:
        progress = False
        for c in reductions(best):
            n += 1
            m = attempt(c, repo, work)
            if m and kind(m) == kind(bmsg):
                best, bmsg, progress = c, m, True
                break
            if n >= limit:
                break
    return best, bmsg


def headers(repo):
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".h"):
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(repo, "src")))
    return sorted(out)


def run(tier, seed, repo, work):
    rng = random.Random(seed * 1000003 + 17)
    hs = headers(repo)
    missing = [h for h in S if h not in hs]
    cases = [generate(rng, hs, force=h) for h in hs]
    for h in hs:
        # alone, with the default configuration
        cases.append({"tus": [[h], [h]], "cxx": rng.choice(["g++", "clang++"]), "std": "14", "opt": "-O0", "openmp": False, "macros": [], "lib": []})
    cases += [generate(rng, hs) for _ in range(60 if tier == "quick" else 1500)]
    fails = []
    for h in missing:
        fails.append(({"tus": [[h]], "cxx": "g++", "std": "14", "opt": "-O0", "openmp": False, "macros": [], "lib": []}, "does not compile: there is no header " + h))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for c, m in zip(cases, ex.map(lambda c: attempt(c, repo, work), cases)):
            if m:
                fails.append((c, m))
    out, seen = [], set()
    for c, m in fails:
        if kind(m) in seen:
            continue
        seen.add(kind(m))
        out.append(shrink(c, m, repo, work))
    classes = {}
    for c in cases:
        for lab in [c["cxx"], "C++" + c["std"]] + [m.split("=")[0] for m in c["macros"]] + (["several units"] if len(c["tus"]) > 1 else []):
            classes[lab] = classes.get(lab, 0) + 1
    nt = len(set(repr(c) for c in cases if c["macros"] or len(c["tus"]) > 1 or len(c["tus"][0]) > 1 or c["tus"][0][0] != "theoretica.h"))
    stats = {"config": "generated", "laws": [{"law": "any headers, in any order and configuration", "evaluations": len(cases), "discarded": 0,
             "distinct_nontrivial": nt, "classes": classes, "samples": [repr(c) for c in cases[:3] + cases[-5:]]}]}
    return stats, out
