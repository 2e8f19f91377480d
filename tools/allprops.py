#!/usr/bin/env python3-vt
"""allprops.py [--smear N]: runs every rule task once on NLCG_REPO (default /repo) and prints, per property, obligations
discharged / violated / undecided.  Development aid (the registered checks run check.py)."""
import os, sys, gc, time, json, shutil, tempfile
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1"); os.environ.setdefault("OMP_NUM_THREADS", "1")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/rules"]; sys.dont_write_bytecode = True
import multiprocessing as mp, importlib, traceback
gc.disable()
own = not os.environ.get("NLCG_SCRATCH")
if own: os.environ["NLCG_SCRATCH"] = tempfile.mkdtemp(prefix="nlcgx.")
from registry import PROPS, TASKS, SOURCES
import model
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
def work(t):
    t0 = time.time()
    try:
        m = importlib.import_module(t["fn"][0]); r, i = getattr(m, t["fn"][1])(t["arg"], "quick", 1)
        return t["name"], r.o, None, time.time() - t0
    except BaseException as e:
        return t["name"], None, traceback.format_exc()[-1500:], time.time() - t0
tasks = [t for t in TASKS if not sel or any(s in t["name"] for s in sel)]
for s in sorted({s for t in tasks for s in t["src"]}):
    try: model.load(SOURCES[s])
    except Exception as e: print("BROKEN", s, str(e)[-800:])
gc.freeze()
with mp.get_context("fork").Pool(int(os.environ.get("J", "7"))) as P:
    out = P.map(work, sorted(tasks, key=lambda t: -t["cost"]), 1)
st = {}
for n, o, err, dt in out:
    if err: print("NOT-ANALYSED", n, err.strip().split("\n")[-1][:300]); open("/tmp/allprops.err", "a").write(n + "\n" + err + "\n"); continue
    for (p, r), d in o.items():
        e = st.setdefault(p, [0, [], []]); e[0] += d["ok"]
        e[1] += [(r, w, m, n) for w, m in d["viol"]]; e[2] += [(r, w, m, n) for w, m in d["und"]]
bad = 0
for p in sorted(st):
    ok, v, u = st[p]
    if v or u:
        print("%s ok=%d viol=%d und=%d" % (p, ok, len(v), len(u)))
        seen = set()
        for k, l in (("V", v), ("U", u)):
            for r, w, m, n in l:
                if (k, r) not in seen:
                    seen.add((k, r)); print("   ", k, "[%s] %s @%s: %s" % (n, r, w, str(m)[:260]))
miss = [p for p in PROPS if p not in st or st[p][0] == 0]
print("props %d, discharged %d, undischarged %s, times %s" % (len(st), sum(e[0] for e in st.values()), miss, max((round(x[3]), x[0]) for x in out)))
if own: shutil.rmtree(os.environ["NLCG_SCRATCH"], ignore_errors=True)
