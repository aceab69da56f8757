#!/usr/bin/env python3
"""seed.py SPEC.py : create /verif/seeded/<id>/ from a spec file defining id, prop, needs, breaks, edits=[(file, old, new)], demo (sh text), files={name: text};
confirms build, stable tests, demo on both trees; then runs the property's check against the change"""
import json, os, subprocess, sys
V = "/verif"; R = os.environ.get("NUJEL_REPO", "/repo")
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def undo(): sh("git -C /repo checkout -q -- .")
for spec in sys.argv[1:]:
    g = {"files": {}}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", g["id"]); os.makedirs(d, exist_ok=True)
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is dirty")
    try:
        for f, old, new in g["edits"]:
            p = "/repo/" + f; t = open(p).read()
            if t.count(old) < 1: sys.exit("%s: pattern not found in %s: %s" % (g["id"], f, old[:60]))
            open(p, "w").write(t.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + g["demo"].strip() + "\n"); os.chmod(d + "/demo.sh", 0o755)
        for n, t in g["files"].items(): open(d + "/" + n, "w").write(t)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("cd /verif && ./check.py " + g["prop"]); print(g["id"], "CHECK rc", r.returncode, " | ".join(x.strip()[:200] for x in r.stdout.split("\n") if x.startswith("  "))[:400])
        if "-c" in os.environ.get("SEED", ""): continue
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(g["id"], "BUILD FAILS", b.stderr[-300:]); continue
        sh("bash /opt/vp/test.sh /tmp/seed.json")
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/seed.json"))["passed"])
        r1 = sh(["timeout", "300", "bash", d + "/demo.sh"], cwd="/repo")
        undo(); sh("bash /opt/vp/build.sh")
        r0 = sh(["timeout", "300", "bash", d + "/demo.sh"], cwd="/repo")
        print(g["id"], "tests missing", len(miss), list(miss)[:3], "demo patched rc", r1.returncode, "clean rc", r0.returncode, "OK" if not miss and r1.returncode and not r0.returncode else "BAD", (r1.stdout + r1.stderr)[-150:] if not r1.returncode or miss else "", (r0.stdout + r0.stderr)[-150:] if r0.returncode else "")
    finally:
        undo()
