#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from catalog import CATALOG, NOT_APPLICABLE
from props import PROPS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for c in CATALOG:
        assert len(c["title"]) <= 80, c["id"]
        f.write(json.dumps({
            "id": c["id"], "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["forall"]},
            "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mechanism"]]},
        }) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
checks = []
for c in CATALOG:
    if c["id"] in na:
        continue
    assert c["id"] in PROPS, c["id"]
    checks.append({
        "property": c["id"],
        "quick_cmd": "python3 check.py %s quick" % c["id"],
        "thorough_cmd": "python3 check.py %s thorough" % c["id"],
        "technique": c.get("technique", "property-based testing: generated inputs against an independent reference model, with shrinking"),
        "level": "exploration",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "Every check compiles its harness from /verif/harness against /repo's current sources; no hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(CATALOG), "properties,", len(checks), "checks")

# DESIGN.md sections
import glob, re
sec = []
for c in CATALOG:
    P = PROPS.get(c["id"])
    sec.append("### %s %s\n" % (c["id"], c["title"]))
    if P:
        n = ["%s: %s quick / %s thorough cases per target" % (", ".join(s["src"]), s["cases"]["quick"], s["cases"]["thorough"]) for s in P["sources"]]
        sec.append("Generated and compared: %s\n\nHarness: %s.%s\n\nWhy tests cannot: %s\n" % (
            P["rule"], "; ".join(n), (" Assumptions: " + "; ".join(P["assumptions"]) + ".") if P["assumptions"] else "", c["why"]))
    sec.append(c["note"] + "\n")
for x in NOT_APPLICABLE:
    sec.append("### %s (not applicable)\n\n%s\n" % (x["property"], x["reason"]))
bugs = ["| bug | property | needs | breaks | result |", "|---|---|---|---|---|"]
res = {}
rf = os.path.join(V, "tools", "bug_results.json")
if os.path.exists(rf):
    res = json.load(open(rf))
for mf in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(mf))
    mj = json.load(open(mf))
    bugs.append("| %s | %s | %s | %s | %s |" % (b, mj["property"], mj["needs"].replace("|", "/"), mj["what_it_breaks"].replace("|", "/"), res.get(b, "?")))
d = open(os.path.join(V, "DESIGN.md")).read()
for tag, body in (("properties", "\n".join(sec)), ("bugs", "\n".join(bugs))):
    d = re.sub("(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + body + "\n" + m.group(2), d, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
