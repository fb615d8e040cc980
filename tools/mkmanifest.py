#!/usr/bin/env python3
"""Writes MANIFEST.json and the table of bounds in DESIGN.md from properties.jsonl and the harnesses."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
}
rows = []
checks = []
for p in props:
    i = p["id"]
    src = V + "/harness/src/%s.rs" % i.lower()
    if not os.path.exists(src):
        continue
    sc = re.findall(r'\[(quick|deep), "((?:[^"\\]|\\.)*)"\]\s*(?:#\[[^\]]*\]\s*)?fn (\w+)', open(src).read())
    rows.append("\n**%s** %s\n" % (i, p["title"]))
    for t, b, n in sc:
        rows.append("- `%s`%s: %s" % (n, " (thorough)" if t == "deep" else "", b.replace('\\"', '"').replace("\\\\", "\\")))
    q = sum(1 for s in sc if s[0] == "quick")
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": "symbolic execution of the compiled code (LLVM IR of /repo, harness and std) with Z3 deciding every branch and assertion",
        "level": "model_checking",
        "level_note": "Bounded: holds for all values of the symbolic bytes and all listed choices of %d quick (+%d thorough) scenarios, whose bounds are listed in DESIGN.md and in the evidence; nothing is claimed for longer words or lines. "
                      "Trusted: rustc's LLVM IR, the executor (rsym; sampled paths are compared with native runs on every run), Z3, the harness's definitions. Counterexamples are replayed natively before they are reported." % (q, len(sc) - q),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if not os.path.exists(V + "/harness/src/%s.rs" % k.lower())],
    "notes": "No hooks in /repo. check.py describes the steps; known_findings.json lists what is tolerated.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
d = V + "/DESIGN.md"
if os.path.exists(d):
    t = open(d).read()
    a, rest = t.split("<!-- bounds -->", 1)
    _, b = rest.split("<!-- end of bounds -->", 1)
    open(d, "w").write(a + "<!-- bounds -->\n" + "\n".join(rows) + "\n\n<!-- end of bounds -->" + b)
