#!/usr/bin/env python3
"""Decide one property: build its harness from /repo's working tree, run the
generated-case search, report.  Usage: run.py <ID> [--law NAME] [--keep]
       run.py --replay <replay.json>
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough),
VERIF_REPO (default /repo)."""
import json, os, sys, subprocess, time, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402
from spec import P as PROPS  # noqa: E402

TEXT = {p["id"]: p for p in PROPS}

NCPU = os.cpu_count() or 4
BASE = ["-std=c++14", "-O1", "-g1", "-w", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS", "-fopenmp"]
SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]


def known_ids(pid):
    """ids and descriptions of the recorded (unrepaired) findings of a property"""
    out = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        f = line.strip().split(" ", 3)
        if f[0] == "finding:" and f[1] == "property=" + pid:
            out[f[2][len("id="):]] = f[3]
    return out


def build(pid, cfg, bdir):
    spec = CHECKS[pid]
    os.makedirs(bdir, exist_ok=True)
    cxx = cfg.get("cxx", "g++")
    flags = BASE + (SAN if cfg.get("san", True) else []) + cfg.get("flags", []) + [
        "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness")]
    srcs = [os.path.join(HERE, "harness", s) for s in cfg.get("sources", spec["sources"])] + [os.path.join(HERE, "engine", "main.cpp")]

    def cc(s):
        o = os.path.join(bdir, os.path.basename(s) + ".o")
        r = subprocess.run([cxx] + flags + ["-c", s, "-o", o], capture_output=True, text=True)
        return s, o, r
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(cc, srcs))
    log = ""
    for s, o, r in res:
        if r.returncode:
            log += "== compiling %s (configuration %s)\n%s\n" % (os.path.basename(s), cfg["name"], r.stderr)
    if log:
        return None, log
    exe = os.path.join(bdir, "harness")
    r = subprocess.run([cxx] + flags + [o for _, o, _ in res] + ["-o", exe], capture_output=True, text=True)
    if r.returncode:
        return None, "== linking (configuration %s)\n%s" % (cfg["name"], r.stderr)
    return exe, ""


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2000:handle_abort=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", OMP_WAIT_POLICY="passive")


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    if args and args[0] == "--setup":
        # nothing is cached between runs: only check that the tools are there
        return subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode
    pid = args[0]
    law = args[args.index("--law") + 1] if "--law" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_ids(pid)
    violations, stats, present, skipped = [], [], {}, []
    try:
        if spec.get("driver") == "headers":
            import headers
            st, fs = headers.run(tier, seed, REPO, work)
            stats.append(st)
            for n, (case, msg) in enumerate(fs):
                rp = os.path.join(rdir, "%s-%d.json" % (pid, n))
                json.dump({"property": pid, "law": st["laws"][0]["law"], "seed": seed, "case": case, "message": msg,
                           "translation_units": [headers.text(case, k) for k in range(len(case["tus"]))],
                           "replay_with": "python3 run.py --replay " + os.path.relpath(rp, HERE)}, open(rp, "w"), indent=1)
                violations.append((rp, st["laws"][0]["law"], "%s (%s)" % (msg, json.dumps(case))))
        cfgs = [c for c in spec.get("configs", []) if tier == "thorough" or not c.get("thorough_only")]
        kf = os.path.join(work, "known.txt")
        open(kf, "w").write("".join(k + "\n" for k in known))
        with ThreadPoolExecutor(max(1, min(len(cfgs), 4))) as ex:
            built = list(ex.map(lambda c: build(pid, c, os.path.join(work, "b-" + c["name"])), cfgs))
        for cfg, (exe, log) in zip(cfgs, built):
            if exe is None:
                rp = os.path.join(rdir, "%s-build-%s.json" % (pid, cfg["name"]))
                json.dump({"property": pid, "law": "the public interface this property speaks about can be compiled",
                           "config": cfg["name"], "message": log[-6000:]}, open(rp, "w"), indent=1)
                violations.append((rp, "build", "a program using the documented interface no longer compiles: " + first_error(log)))
                continue
            out = os.path.join(work, "o-" + cfg["name"])
            if cfg.get("probe"):
                # a sanitizer that cannot start on this machine decides nothing: leave the configuration out
                pr = subprocess.run([exe, "--scale", "0", "--out", out, "--jobs", "1", "--config", cfg["name"], "--known", kf],
                                    capture_output=True, text=True, env=dict(ENV, **cfg.get("env", {})))
                if pr.returncode:
                    skipped.append(cfg["name"])
                    continue
            scale = cfg.get("scale", 1.0) * (spec.get("thorough_scale", 12.0) if tier == "thorough" else 1.0)
            cmd = [exe, "--seed", str(seed), "--scale", str(scale), "--out", out, "--jobs", str(NCPU), "--config", cfg["name"], "--known", kf]
            if law:
                cmd += ["--law", law]
            r = subprocess.run(cmd, capture_output=True, text=True, env=dict(ENV, **cfg.get("env", {})))
            if r.stderr.strip():
                sys.stderr.write(r.stderr)
            if r.returncode not in (0, 1) or not os.path.exists(os.path.join(out, "stats.json")):
                sys.stderr.write("harness error (%s): exit %s\n%s\n" % (cfg["name"], r.returncode, r.stderr[-2000:]))
                return 2
            stats.append(json.load(open(os.path.join(out, "stats.json"))))
            for line in open(os.path.join(out, "failures.jsonl")):
                f = json.loads(line)
                rp = os.path.join(rdir, "%s-%s-%s.json" % (pid, cfg["name"], f["law"]))
                f["property"] = pid
                f["seed"] = seed
                f["replay_with"] = "python3 run.py --replay " + os.path.relpath(rp, HERE)
                json.dump(f, open(rp, "w"), indent=1)
                violations.append((rp, f["law"], f["message"]))
            for line in open(os.path.join(out, "findings.txt")):
                k, s = line.split()
                if s == "present":
                    present[k] = True
    finally:
        shutil.rmtree(work, ignore_errors=True)

    evals = sum(l["evaluations"] for s in stats for l in s["laws"])
    dn = sum(l["distinct_nontrivial"] for s in stats for l in s["laws"])
    samples = []
    for s in stats:
        for l in s["laws"]:
            for x in l["samples"][:8 if spec.get("driver") else 1]:
                samples.append("[%s] %s" % (s["config"], x))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": dn,
            "rule": TEXT.get(pid, {}).get("rule", ""),
            "samples": samples[:40] or ["(no case ran)"],
            "laws": [{"config": s["config"], "law": l["law"], "evaluations": l["evaluations"], "discarded": l["discarded"],
                      "distinct_nontrivial": l["distinct_nontrivial"], "classes": l["classes"]} for s in stats for l in s["laws"]],
        },
        "assumptions": TEXT.get(pid, {}).get("assumptions", []) + ["configuration %s could not run on this machine and was left out" % k for k in skipped],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        if present.get(k):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for rp, l, m in violations:
        print("  law %s: %s" % (l, m[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s" % (pid, tier, seed, evals, dn, len(violations), time.time() - t0))
    return 1 if violations else 0


def first_error(log):
    for l in log.splitlines():
        if "error:" in l or "undefined reference" in l:
            return l.strip()
    return log.strip().splitlines()[-1] if log.strip() else ""


def replay(path):
    f = json.load(open(path))
    pid = f["property"]
    spec = CHECKS[pid]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if spec.get("driver") == "headers":
            import headers
            m = headers.attempt(f["case"], REPO, work)
            print(m or "compiles, links and gives the known answers")
            return 1 if m else 0
        cfg = next(c for c in spec["configs"] if c["name"] == f["config"])
        exe, log = build(pid, cfg, work)
        if exe is None:
            print(log[-4000:])
            return 1
        if "history" in f:
            return subprocess.run([exe, "--out", work, "--history", f["law"], " ".join(map(str, f["history"]))],
                                  env=dict(ENV, **cfg.get("env", {}))).returncode
        if "choices" not in f:
            print("the harness compiles")
            return 0
        r = subprocess.run([exe, "--out", work, "--replay", f["law"], " ".join(map(str, f["choices"]))],
                           env=dict(ENV, **cfg.get("env", {})))
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
