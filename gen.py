#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from spec.py and checks.py."""
import json
import os
from spec import P
from checks import CHECKS

os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"] or ["return values of the public functions"], "hook_needed": None},
        }) + "\n")
checks = []
for p in P:
    if p["id"] not in CHECKS:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing: generated inputs against an explicit oracle, with shrinking",
        "level": "exploration",
        "level_note": p["note"] or ("Searched, not proved: holds on every generated case of the run. Trusts: " + "; ".join(p["assumptions"]) + "."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in P if p["id"] not in CHECKS],
    "notes": "No hooks: the library is header-only and every property is observable through its public interface.",
}, open("MANIFEST.json", "w"), indent=1)
import glob
from design import HOW, HEAD, TAIL, MUT
with open("DESIGN.md", "w") as f:
    f.write(HEAD)
    for p in P:
        c = CHECKS.get(p["id"], {})
        f.write("### %s: %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
        f.write("* How: %s\n" % HOW[p["id"]])
        f.write("* Bounds: %s.\n* Non-trivial cases: %s.\n" % (p["text"], p["rule"]))
        if c.get("configs"):
            f.write("* Builds: %s.\n" % ", ".join(x["name"] for x in c["configs"]))
        f.write("* Trusts: %s.\n* Beyond the tests: %s.\n\n" % ("; ".join(p["assumptions"]), p["why"]))
    fixed = sum(l.startswith("fixed:") for l in open("known_findings.txt"))
    rows = ""
    for m in sorted(glob.glob("seeded/*/meta.json")):
        d = json.load(open(m))
        rows += "| %s: %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].rstrip(".").replace("|", "\\|"), d["property"], d.get("caught", "yes"))
    f.write(TAIL % (fixed, rows, MUT))
print(len(P), "properties,", len(checks), "checks")
