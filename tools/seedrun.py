#!/usr/bin/env python3
"""seedrun.py [ids...] [--all]: applies each planted bug to a scratch copy of /repo's HEAD and runs the check of its property there
(--all: every claimed check); prints which checks report a violation.  Copies are removed."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if "checks" in json.load(open(V + "/MANIFEST.json")) else []
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    d = "/tmp/seedrun." + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("git -C /repo archive HEAD | tar x -C %s" % d)
    r = sh("git -C %s apply --unsafe-paths --directory=%s %s/seeded/%s/patch.diff" % (d, d, V, i))
    r = sh("cd %s && patch -p1 -s < %s/seeded/%s/patch.diff" % (d, V, i)) if r.returncode else r
    if r.returncode:
        print(i, "PATCH FAILED", r.stdout[:200]); continue
    scr = d + "/.scr"; os.makedirs(scr)
    out = []
    for p in (claimed if "--all" in sys.argv else [m["property"]]):
        r = sh("NLCG_REPO=%s NLCG_SCRATCH=%s %s/check.py %s" % (d, scr, V, p))
        l = [x for x in r.stdout.split("\n") if x.strip()]
        out.append("%s=%d" % (p, r.returncode))
        if p == m["property"]:
            first = l[0][:220] if l else ""
    print("%-28s %-5s %s | %s" % (i, m["property"], " ".join(out), first), flush=True)
    shutil.rmtree(d, ignore_errors=True)
