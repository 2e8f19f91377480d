#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current sources.  The sources are parsed by clang (engine/export.cpp), the
rule sets that contribute obligations to the property run in parallel, and the verdict plus the measured
coverage are written to evidence/<property>.json (and evidence/<property>.report.txt, the replay file)."""
import os
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
import gc
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
sys.dont_write_bytecode = True

from registry import PROPS, TASKS, SOURCES    # noqa: E402

TASK_S = 780


def worker(q, name, fn, arg, tier, seed, limit):
    gc.disable()
    signal.alarm(limit)
    t = time.time()
    try:
        mod = importlib.import_module(fn[0])
        res, info = getattr(mod, fn[1])(arg, tier, seed)
        q.put((name, "done", res.o, res.notes, info, time.time() - t))
    except BaseException as e:                                      # noqa: BLE001
        q.put((name, "broken", "%s: %s" % (type(e).__name__, str(e)[:600]),
               traceback.format_exc()[-3000:], None, time.time() - t))


def known():
    """known_findings.txt: lines `finding: property=<id> rule=<rule> at=<where> :: <what fails>` (suppress exactly that rule
    at that place); `fixed:` lines suppress nothing"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                head, _, what = l[8:].partition("::")
                d = {}
                import re
                m = re.match(r"\s*property=(\S+) rule=(.*?) at=(\S+)\s*$", head)
                if m:
                    out.append((m.group(1), m.group(2), m.group(3), what.strip()))
    return out


def main():
    gc.disable()
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
            args = [x for x in args if x != tier]
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = args[0]
    if pid not in PROPS:
        print("unknown property %s" % pid)
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    own = not os.environ.get("NLCG_SCRATCH")
    scr = os.environ.get("NLCG_SCRATCH") or tempfile.mkdtemp(prefix="nlcgx.")
    os.environ["NLCG_SCRATCH"] = scr
    try:
        return run(pid, tier, seed, t0)
    finally:
        if own:
            shutil.rmtree(scr, ignore_errors=True)


def run(pid, tier, seed, t0):
    import model
    tasks = [t for t in TASKS if pid in t["props"]]
    broken, done = [], []
    srcs = sorted({s for t in tasks for s in t["src"]})
    bad = {}
    import subprocess
    from prog import build_plugin, AnalysisBroken
    try:
        build_plugin()
    except AnalysisBroken as e:
        print("ERROR: %s" % e)
        return 2
    from concurrent.futures import ThreadPoolExecutor

    def exp(s):
        try:
            model.export_only(SOURCES[s])
        except Exception as e:      # noqa: BLE001
            bad[s] = "%s" % e
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(exp, srcs))
    for s in srcs:
        if s not in bad:
            try:
                model.load(SOURCES[s])
            except Exception as e:      # noqa: BLE001
                bad[s] = "%s" % e
    gc.freeze()
    q = mp.Queue()
    ctx = mp.get_context("fork")
    run_, pend = {}, []
    for t in tasks:
        b = [bad[s] for s in t["src"] if s in bad]
        if b:
            broken.append((t["name"], b[0], ""))
        else:
            pend.append(t)
    tot = len(pend)
    limit = TASK_S if tier == "quick" else 3 * 3600
    t1 = time.time()
    got = 0
    pend.sort(key=lambda t: -t.get("cost", 1))
    while got < tot:
        while pend and len(run_) < 7:
            t = pend.pop(0)
            p = ctx.Process(target=worker, args=(q, t["name"], t["fn"], t["arg"], tier, seed, limit))
            p.start()
            run_[t["name"]] = p
        try:
            r = q.get(timeout=2)
        except Exception:           # noqa: BLE001  (queue.Empty)
            for n, p in list(run_.items()):
                if not p.is_alive() and q.empty():
                    time.sleep(0.3)
                    if q.empty():
                        broken.append((n, "worker ended (exit %s)" % p.exitcode, ""))
                        del run_[n]
                        got += 1
            continue
        got += 1
        if r[0] in run_:
            run_.pop(r[0]).join()
        if r[1] == "done":
            done.append(r)
        else:
            broken.append((r[0], r[2], r[3]))

    if os.environ.get("NLCG_TIMES"):
        print("export+load %.1f tasks %s" % (t1 - t0, [(r[0], round(r[5], 1)) for r in done]))
    rules, viol, und, notes, info = {}, [], [], {}, {}
    for (name, _, o, nts, inf, dt) in sorted(done, key=lambda r: r[0]):
        info[name] = {"wall_s": round(dt, 1), "analysed": inf}
        if nts:
            notes[name] = [str(n)[:300] for n in nts[:10]]
        for (prop, rule), d in o.items():
            if prop == pid:
                e = rules.setdefault(rule, {"obligations": 0, "discharged": 0, "violated": 0, "undecided": 0})
                e["obligations"] += d["ok"] + len(d["viol"]) + len(d["und"])
                e["discharged"] += d["ok"]
                e["violated"] += len(d["viol"])
                e["undecided"] += len(d["und"])
                viol += [(rule, w, m, name) for (w, m) in d["viol"]]
                und += [(rule, w, m, name) for (w, m) in d["und"]]
            elif prop == "*":
                und += [(rule, w, m, name) for (w, m) in d["und"]]
    kf = known()
    found, real = [], []
    for v in viol:
        k = next((x for x in kf if x[0] == pid and x[1] == v[0] and str(v[1]).startswith(x[2])), None)
        if k is not None:
            if k not in found:
                found.append(k)
        else:
            real.append(v)
    disch = sum(e["discharged"] for e in rules.values())
    obl = sum(e["obligations"] for e in rules.values())
    rep = os.path.join(HERE, "evidence", pid + ".report.txt")
    with open(rep, "w") as fh:
        fh.write("property %s: %s\ntier %s, sources %s\n\n" % (pid, PROPS[pid], tier, ", ".join(SOURCES[s] for s in srcs)))
        for (r, w, m, n) in real:
            fh.write("VIOLATION [%s] rule '%s' at %s\n    %s\n" % (n, r, w, m))
        for k in found:
            fh.write("KNOWN-FINDING rule '%s' at %s: %s\n" % (k[1], k[2], k[3]))
        for (r, w, m, n) in und:
            fh.write("UNDECIDED [%s] rule '%s' at %s\n    %s\n" % (n, r, w, m))
        for (n, m, tb) in broken:
            fh.write("NOT ANALYSED [%s]: %s\n%s\n" % (n, m, tb))
        fh.write("\nrules:\n")
        for r, e in sorted(rules.items()):
            fh.write("    %-60s %s\n" % (r, e))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": "static analysis of the type-resolved syntax trees of %s; every rule is an obligation on the gated "
                             "value graph / call sites of the current sources, counted below as decided on this run" % ", ".join(
                                 SOURCES[s] for s in srcs),
              "obligations": obl, "discharged": disch, "undecided": len(und),
              "rules": rules, "analysed": info, "not_analysed": [[n, m] for n, m, _ in broken],
              "samples": ["%s: %d obligations discharged" % (r, e["discharged"]) for r, e in sorted(rules.items())]},
          "wall_s": round(time.time() - t0, 2),
          "assumptions": ["external code (BLAS, LAPACK, MPI, Kokkos, libstdc++) behaves as specified; it is modelled, not analysed",
                          "the host backend implements the documented interface (symbolic model in engine/backend.py)",
                          "equality of value-graph terms is decided by random interpretation (agreement at random points)"],
          "violations": [{"rule": r, "where": str(w), "what": m, "task": n} for (r, w, m, n) in real]}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for (r, w, m, n) in und[:8]:
        print("UNDECIDED rule '%s' at %s: %s [%s]" % (r, w, str(m)[:200], n))
    for (n, m, _) in broken:
        print("NOT-ANALYSED %s: %s" % (n, m[:300]))
    for k in found:
        print("KNOWN-FINDING: property=%s rule '%s' at %s: %s" % (pid, k[1], k[2], k[3]))
    for (r, w, m, n) in real[:12]:
        print("%s: rule '%s' violated: %s" % (w, r, m))
    if real:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rep, HERE)))
        return 1
    if disch == 0:
        print("ERROR: nothing could be decided for %s" % pid)
        return 2
    print("%s held: %d obligations discharged under %d rules, %d undecided (%.1f s)" % (pid, disch, len(rules), len(und), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
