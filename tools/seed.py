#!/usr/bin/env python3
"""Author planted bugs: seed.py <spec.py>...   (each spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text) or DEMO_SH, FILES={name: text})
Creates /verif/seeded/<ID>/ after checking in a scratch copy that the demo passes without and fails with the patch;
prints whether the property's quick check catches it."""
import os, subprocess, sys, shutil, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: property broken.  Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -w -DTAT_NOTHING_BITS=7 -I"$PWD/include" "$d/demo.cpp" -o "$w/demo" -llapack -lblas || exit 2
cd "$w" && timeout 120 ./demo
'''
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(path):
    s = runpy.run_path(path)
    wt = "/tmp/seedwt-" + s["ID"]
    shutil.rmtree(wt, ignore_errors=True)
    sh("git", "clone", "-q", "--shared", "/repo", wt)
    out = os.path.join(V, "seeded", s["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        open(out + "/demo.sh", "w").write(s.get("DEMO_SH", DEMO_SH))
        os.chmod(out + "/demo.sh", 0o755)
        if "DEMO" in s:
            open(out + "/demo.cpp", "w").write(s["DEMO"])
        for n, t in s.get("FILES", {}).items():
            open(out + "/" + n, "w").write(t)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        nodemo = "--nodemo" in sys.argv
        r = sh("bash", out + "/demo.sh", cwd=wt) if not nodemo else None
        if r and r.returncode:
            print(s["ID"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:]); return
        for f, a, b in s["EDITS"]:
            t = open(os.path.join(wt, f)).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(os.path.join(wt, f), "w").write(t.replace(a, b))
        d = sh("git", "diff", cwd=wt).stdout
        open(out + "/patch.diff", "w").write(d)
        if not nodemo:
            r = sh("bash", out + "/demo.sh", cwd=wt)
            print(s["ID"], "demo with patch: rc", r.returncode, r.stdout[-200:].strip())
            if r.returncode == 0:
                print("   NOT DEMONSTRATED")
        if "--nocheck" not in sys.argv:
            e = dict(os.environ, TAT_REPO=wt, VERIF_SEED="1")
            r = sh("python3", V + "/check.py", s["PROPERTY"], "quick", cwd=V, env=e)
            print("   check", s["PROPERTY"], "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", r.stdout[-600:].strip())
            rf = os.path.join(V, "tools", "bug_results.json")
            res = json.load(open(rf)) if os.path.exists(rf) else {}
            hist = res.get(s["ID"], "")
            now = "caught by %s quick" % s["PROPERTY"] if r.returncode == 1 else "missed"
            if hist == "missed" and now != "missed":
                now += " (after strengthening; missed at first)"
            elif hist.startswith("caught") and now.startswith("caught"):
                now = hist
            res[s["ID"]] = now
            json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
for p in sys.argv[1:]:
    if not p.startswith("--"):
        main(p)
