#!/usr/bin/env python3
"""seedlab.py <module.py> [ids...]: builds planted bugs described in a module (SEEDS) into /verif/seeded and confirms each one:
patch applies, builds, stable tests pass, demo passes on the unchanged tree and fails with the patch.  The patch is applied to
/repo only while a bug is being confirmed."""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): return sh("bash /opt/vp/build.sh").returncode == 0
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedlab.json")
    d = json.load(open("/tmp/seedlab.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    st = base["stable"]
    st = [x if isinstance(x, str) else x.get("id") for x in st]
    return [x for x in st if x not in d["passed"]]
def main():
    spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    for i in ids:
        s = m.SEEDS[i]
        d = os.path.join(V, "seeded", i); tmp = "/tmp/seedlab." + i
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        for f in s.get("files", ["host.hpp", "common.sh"]): shutil.copy(os.path.join(V, "tools/mock", f), tmp)
        open(tmp + "/demo.cpp", "w").write(s["demo"])
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/common.sh"\n' + s.get("run", "run") + "\nexit 0\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        msg = []
        build()
        r0 = sh("bash %s/demo.sh" % tmp, cwd=R)
        try:
            for f, a, b in s["edits"]:
                t = open(os.path.join(R, f)).read()
                assert t.count(a) >= 1, (i, f, a, t.count(a))
                n = s.get("nth", {}).get(a)
                if n is None:
                    assert t.count(a) == 1, (i, f, a, t.count(a))
                    t = t.replace(a, b)
                else:
                    p = t.split(a); t = a.join(p[:n + 1]) + b + a.join(p[n + 1:])
                open(os.path.join(R, f), "w").write(t)
            open(tmp + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            ok = build()
            bad = tests() if ok else ["build"]
            r1 = sh("bash %s/demo.sh" % tmp, cwd=R) if ok else None
        finally:
            sh("git -C /repo checkout -- .")
        good = r0.returncode == 0 and ok and not bad and r1.returncode not in (0, 9)
        print("%s %s clean=%d build=%s tests_lost=%s patched=%s" % (i, "OK" if good else "REJECTED", r0.returncode, ok, bad, r1.returncode if r1 else None))
        if not good or r0.returncode:
            print("   clean:", r0.stdout[-600:].replace("\n", "\n   ")); print("   patched:", (r1.stdout if r1 else "")[-600:].replace("\n", "\n   "))
        if good:
            print("   ", r1.stdout.strip().split("\n")[-1][:200])
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        shutil.rmtree(tmp, ignore_errors=True)
    build()
main()
