"""Public entry points: which implementation they reach, with which arguments, and that the unavailable ones refuse."""
from model import *
from solver import Res

HOST = ("compute", "set_fn", "set_mu", "get_total_energy", "op")
US = ("nlcg_us_cpu", "nlcg_us_device_cpu", "nlcg_us_device", "nlcg_us_cpu_device")
MVP = ("nlcg_mvp2_cpu", "nlcg_mvp2_device", "nlcg_mvp2_cpu_device", "nlcg_mvp2_device_cpu")
REFUSE = ("nlcg_us_device", "nlcg_us_cpu_device") + MVP
UNKNOWN = (5, -1, 17)


def impls(p, names):
    """functions that take the host object and are not public entry points"""
    out = set()
    for fid, f in enumerate(p.F):
        n = p.sn[fid]
        if n in names or "params" not in f:
            continue
        if any((p.cname(ty) or "").endswith("::EnergyBase") for (v, nm, ty) in f["params"]) and any(
                p.ty(p.strip_ref(ty))["k"] in ("flt", "int", "enum") for (v, nm, ty) in f["params"]):
            out.add(n)
    return out


class Probe(Solver):
    """an entry point evaluated up to the first call of a function that takes the host and scalars"""

    def __init__(self, entry, smear, stop):
        self.stop = stop
        self.calls = []
        Solver.__init__(self, smear, entry)

    def bindargs(self, f, smear):
        for n in self.stop:
            self.I.nocall[n] = self.hit
        return Solver.bindargs(self, f, smear)

    def hit(self, I, fid, a, this, loc):
        vals = []
        for x in a:
            vals.append(I.load(x) if isinstance(x, Ptr) and not isinstance(I.load(x), (Rec, Obj)) else x)
        self.calls.append((fid, tuple(str(v) if not isinstance(v, T) else v for v in vals), I.pc, loc))
        self.mark = I.fresh("info")
        return Opq(self.mark)


class Obj:
    pass


def events(s):
    return [e for e in s.I.events if e.kind in HOST]


def task(arg, tier, seed):
    res = Res()
    p = load("src/nlcglib.cpp")
    info = {"entry points": 0}
    pub = {"nlcglib::" + n for n in US + MVP}
    for n in US + MVP:
        fids = p.find("nlcglib::" + n)
        if len(fids) != 1:
            raise AnalysisBroken("public entry point %s not found" % n)
        info["entry points"] += 1
    stop = impls(p, pub)
    info["implementations"] = sorted(stop)
    # entry points without an implementation in this build
    for n in REFUSE:
        for sm in range(5):
            s = Solver(sm, "nlcglib::" + n)
            loc = p.loc(p.F[p.find("nlcglib::" + n)[0]]["loc"])
            res.check(s.dead, "P04", "unavailable entry point throws", loc, "%s(%s) can return normally although it is not available in this build" % (n, SMEAR[sm]))
            ev = events(s)
            for q in ("P04", "P20"):
                res.check(not ev, q, "unavailable entry point leaves the host alone", loc, "%s touches the host" % n)
            if not s.dead:
                break
    # unknown smearing kinds
    for n in US[:2]:
        loc = p.loc(p.F[p.find("nlcglib::" + n)[0]]["loc"])
        for sm in UNKNOWN:
            s = Solver(sm, "nlcglib::" + n)
            for q in ("P04", "P20"):
                res.check(s.dead and not events(s), q, "unknown smearing kind throws", loc, "%s runs the solver for the unknown smearing value %d" % (n, sm))
            if not s.dead:
                break
    # sibling entry points reach the same implementation with the same arguments
    for sm in range(5):
        rec = {}
        excl = set()
        for attempt in range(4):
            for n in US[:2]:
                s = Probe("nlcglib::" + n, sm, stop - excl)
                rec[n] = s.calls
            na = [{p.sn[c[0]] for c in rec[n]} for n in US[:2]]
            if na[0] == na[1]:
                break
            d = (na[0] ^ na[1]) - excl
            if not d:
                break
            excl.add(sorted(d)[0])
        a, b = (rec[n] for n in US[:2])
        loc = p.loc(p.F[p.find("nlcglib::" + US[1])[0]]["loc"])
        if [c[0] for c in a] != [c[0] for c in b] or not a:
            res.add("P04", "device_cpu equals cpu", "und", loc, "the two entry points reach different implementations")
            continue
        same = all(x[1] == y[1] and x[2] is y[2] for x, y in zip(a, b))
        res.check(same, "P04", "device_cpu equals cpu", loc, "[%s] nlcg_us_device_cpu passes other arguments to %s than nlcg_us_cpu: %s vs %s" % (
            SMEAR[sm], p.sn[a[0][0]], [show(x, 0, 3) if isinstance(x, T) else "." for x in b[0][1]] if b else "-",
            [show(x, 0, 3) if isinstance(x, T) else "." for x in a[0][1]] if a else "-"))
    return res, info
