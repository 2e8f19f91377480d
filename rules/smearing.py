"""Smearing functions: the four scalar functions of every smearing kind as value-graph terms of x and the maximum
occupancy; their defining identities are checked piece by piece (pieces = regions on which every guard is constant)."""
import math

import mpmath as mp
import numpy as np

from model import *
from term import atoms as BAT
from solver import Res

NAMES = ("fn", "delta", "dxdelta", "entropy")
KINDS = {"fermi_dirac": "FERMI_DIRAC", "gaussian_spline": "GAUSSIAN_SPLINE", "gauss_smearing": "GAUSS",
         "methfessel_paxton_smearing": "METHFESSEL_PAXTON", "cold_smearing": "COLD"}
MONO = {"FERMI_DIRAC", "GAUSSIAN_SPLINE", "GAUSS"}
TOL = 1e-11


class Unsupported(Exception):
    pass


class Num:
    """evaluation of a term of x, mo: in extended precision (exact meaning) or in IEEE double arithmetic"""

    def __init__(self, exact):
        self.exact = exact

    def __call__(self, t, x, mo):
        env = {"x": mp.mpf(x) if self.exact else np.float64(x), "mo": mp.mpf(mo) if self.exact else np.float64(mo)}
        return self.ev(t, env, {})

    def c(self, v):
        return mp.mpf(v.numerator) / mp.mpf(v.denominator) if self.exact else np.float64(float(v))

    def ev(self, t, env, memo):
        if t in memo:
            return memo[t]
        o = t.op
        if o == "sym":
            if t.args[0] not in env:
                raise Unsupported("depends on %s" % t.args[0])
            r = env[t.args[0]]
        elif isnum(t):
            r = self.c(t.args[0])
        elif o == "ite":
            r = self.ev(t.args[1] if self.b(t.args[0], env, memo) else t.args[2], env, memo)
        else:
            a = [self.ev(x, env, memo) for x in t.args if isinstance(x, T)]
            r = self.op(o, a)
        memo[t] = r
        return r

    def op(self, o, a):
        if o == "add":
            return a[0] + a[1]
        if o == "mul":
            return a[0] * a[1]
        if o == "neg":
            return -a[0]
        if o == "div":
            return a[0] / a[1]
        if self.exact:
            f = {"exp": mp.exp, "log": mp.log, "sqrt": mp.sqrt, "erf": mp.erf, "erfc": mp.erfc, "abs": abs, "fabs": abs,
                 "pow": mp.power, "sin": mp.sin, "cos": mp.cos, "tanh": mp.tanh, "cosh": mp.cosh, "sinh": mp.sinh, "log1p": lambda z: mp.log(1 + z),
                 "expm1": mp.expm1, "max": max, "min": min}.get(o)
        else:
            f = {"exp": np.exp, "log": np.log, "sqrt": np.sqrt, "erf": lambda z: np.float64(math.erf(z)), "erfc": lambda z: np.float64(math.erfc(z)),
                 "abs": abs, "fabs": abs, "pow": np.power, "sin": np.sin, "cos": np.cos, "tanh": np.tanh, "cosh": np.cosh, "sinh": np.sinh,
                 "log1p": np.log1p, "expm1": np.expm1, "max": max, "min": min}.get(o)
        if f is None:
            raise Unsupported("operation %s" % o)
        return f(*a)

    def b(self, g, env, memo):
        while g is not TRUE and g is not FALSE:
            g = g.hi if self.at(BAT[g.v], env, memo) else g.lo
        return g is TRUE

    def at(self, a, env, memo):
        x, y = (self.ev(z, env, memo) for z in a.args[:2])
        if a.op in ("flt", "lt", "ilt"):
            return bool(x < y)
        if a.op in ("fle", "le"):
            return bool(x <= y)
        if a.op in ("feq", "eq", "ieq"):
            return bool(x == y)
        raise Unsupported("comparison %s" % a.op)


def atoms_of(t, out, seen):
    if t in seen or not isinstance(t, T):
        return
    seen.add(t)
    for x in t.args:
        if isinstance(x, B):
            for a in bsupport(x):
                out.append(a)
                atoms_of(a, out, seen)
        else:
            atoms_of(x, out, seen)


def consts_of(t, out):
    if isinstance(t, T):
        if isnum(t):
            out.add(float(t.args[0]))
        for x in t.args:
            consts_of(x, out)


def breakpoints(ex, ts):
    at = []
    seen = set()
    for t in ts:
        atoms_of(t, at, seen)
    at = list(dict.fromkeys(at))
    cs = set()
    for a in at:
        consts_of(a, cs)
    grid = set(np.linspace(-60, 60, 2401)) | {s * 10.0 ** e for e in range(2, 101, 7) for s in (1, -1)}
    for c in cs:
        for v in (c, -c, math.sqrt(abs(c)), -math.sqrt(abs(c))):
            grid |= {v - 1e-7, v, v + 1e-7}
    grid = sorted(grid)

    def sig(x):
        m = {}
        env = {"x": mp.mpf(x), "mo": mp.mpf(2)}
        return tuple(ex.at(a, env, m) for a in at)
    out = []
    if not at:
        return out
    p, sp = grid[0], sig(grid[0])
    for x in grid[1:]:
        s = sig(x)
        if s != sp:
            lo, hi = mp.mpf(p), mp.mpf(x)
            for _ in range(200):
                m = (lo + hi) / 2
                if sig(m) == sp:
                    lo = m
                else:
                    hi = m
            out.append(lo)
        p, sp = x, s
    # merge
    r = []
    for b in out:
        if not r or abs(b - r[-1]) > 1e-12:
            r.append(b)
    return r


def task(arg, tier, seed):
    mp.mp.dps = 60
    res = Res()
    p = load("src/nlcglib.cpp")
    found = {}
    for n in p.byname:
        q = n.rsplit("::", 1)
        if q[-1] == "fn" and len(q) == 2 and all(len(p.byname.get(q[0] + "::" + f, [])) == 1 for f in NAMES):
            ok = all(len(p.F[p.byname[q[0] + "::" + f][0]]["params"]) == 2 for f in NAMES)
            if ok:
                found[q[0]] = {f: p.byname[q[0] + "::" + f][0] for f in NAMES}
    if not found:
        raise AnalysisBroken("no smearing functions found")
    info = {"kinds": sorted(found), "pieces": {}}
    for cls, fs in sorted(found.items()):
        kind = KINDS.get(cls.split("::")[-1], cls.split("::")[-1])
        one(res, p, kind, fs, info, 12 if tier == "quick" else 120)
    for k in KINDS.values():
        if not any(KINDS.get(c.split("::")[-1]) == k for c in found):
            res.add("P06", "kind analysed", "und", "src/smearing.hpp", "functions of %s not found" % k)
    return res, info


def one(res, p, kind, fs, info, npts):
    ex, fl = Num(True), Num(False)
    t, where = {}, {}
    for f in NAMES:
        where[f] = p.loc(p.F[fs[f]].get("loc"))
        I = Interp(p, Prims(p))
        try:
            v = I.call(fs[f], [S("x"), S("mo")], None, None)
            if I.pc is not TRUE:
                bad = [e for e in I.events if e.kind in ("throw", "abort")]
                if bad:
                    res.add("P06", "total", "viol", where[f], "[%s] %s does not return a value for every argument" % (kind, f))
                    continue
            t[f] = v
            ex(v, 0.3, 2)
        except Dead:
            res.add("P06", "total", "viol", where[f], "[%s] %s never returns" % (kind, f))
        except Unsupported as e:
            res.add("P06", "modelled", "und", where[f], "[%s] %s: %s" % (kind, f, e))
    if len(t) < 4:
        return
    try:
        judge(res, kind, t, where, ex, fl, info, npts)
    except Unsupported as e:
        res.add("P06", "modelled", "und", where["fn"], "[%s] %s" % (kind, e))


def judge(res, kind, t, where, ex, fl, info, npts):
    C = res.check
    br = breakpoints(ex, list(t.values()))
    info["pieces"][kind] = len(br) + 1
    lim = mp.mpf(60)
    edges = [-lim] + [b for b in br if -lim < b < lim] + [lim]
    val = {f: (lambda x, f=f: ex(t[f], x, 1)) for f in NAMES}
    # continuity at the piece boundaries (the pieces are joined where they agree)
    for b in br:
        for f in NAMES:
            l, m, r = (ex(t[f], b + d, 1) for d in (-mp.mpf(10) ** -30, 0, mp.mpf(10) ** -30))
            C(max(abs(l - r), abs(l - m), abs(m - r)) <= 1e-12, "P06", "pieces join", where[f],
              "[%s] %s jumps by %s at x = %s" % (kind, f, mp.nstr(max(abs(l - r), abs(l - m)), 3), mp.nstr(b, 6)))
    # identities on every piece
    for lo, hi in zip(edges, edges[1:]):
        if hi - lo < 1e-6:
            continue
        for i in range(npts):
            x = lo + (hi - lo) * (mp.mpf(i) + mp.mpf("0.437")) / npts
            h = min(mp.mpf(10) ** -20, (hi - lo) * mp.mpf("1e-3") / npts)

            def d(f):
                return (val[f](x + h) - val[f](x - h)) / (2 * h)
            for f, g, rhs, txt in (("fn", "delta", lambda: val["delta"](x), "derivative of the occupation function"),
                                   ("delta", "dxdelta", lambda: val["dxdelta"](x), "derivative of delta"),
                                   ("entropy", "entropy", lambda: -x * val["delta"](x), None)):
                a, b = d(f), rhs()
                tol = TOL * (1 + abs(x))
                if txt:
                    C(abs(a - b) <= tol, "P06", "%s is the derivative of %s" % (g, f), where[g],
                      "[%s] %s(%s) = %s is not the %s (%s)" % (kind, g, mp.nstr(x, 5), mp.nstr(b, 8), txt, mp.nstr(a, 8)))
                else:
                    C(abs(a - b) <= tol, "P06", "entropy slope is -x delta", where["entropy"],
                      "[%s] slope of the entropy at x = %s is %s, not -x*delta = %s" % (kind, mp.nstr(x, 5), mp.nstr(a, 8), mp.nstr(b, 8)))
            for f in NAMES:
                C(abs(ex(t[f], x, 2) - 2 * ex(t[f], x, 1)) <= TOL and abs(ex(t[f], x, mp.mpf("0.7")) - mp.mpf("0.7") * ex(t[f], x, 1)) <= TOL,
                  "P06", "linear in the maximum occupancy", where[f], "[%s] %s does not scale with the maximum occupancy at x = %s" % (kind, f, mp.nstr(x, 5)))
            if kind in MONO:
                v = val["fn"](x)
                C(-1e-12 <= v <= 1 + 1e-12 and val["delta"](x) >= -1e-12, "P06", "bounds of a monotonous kind", where["fn"],
                  "[%s] occupation %s at x = %s outside [0, max] or decreasing" % (kind, mp.nstr(v, 8), mp.nstr(x, 5)))
    # limits
    for x in (45, 60, 1e3, 1e10, 1e50, 1e100):
        for s in (1, -1):
            for f, want in (("fn", 1 if s > 0 else 0), ("delta", 0), ("dxdelta", 0), ("entropy", 0)):
                v = ex(t[f], s * x, 1)
                C(abs(v - want) <= 1e-12, "P06", "limits", where[f], "[%s] %s(%g) = %s instead of its limit %d" % (kind, f, s * x, mp.nstr(v, 6), want))
    # double arithmetic: finite and close to the exact meaning
    pts = set(np.linspace(-50, 50, 401)) | {s * 10.0 ** e for e in range(2, 101, 2) for s in (1, -1)}
    for b in br:
        pts |= {float(b) * (1 + d) + d for d in (-1e-9, 0, 1e-9)}
    with np.errstate(all="ignore"):
        for x in sorted(pts):
            for f in NAMES:
                v = fl(t[f], x, 2)
                try:
                    e = ex(t[f], x, 2)
                except (ZeroDivisionError, OverflowError, ValueError):
                    e = None
                near = any(abs(x - b) < 1e-8 * (1 + abs(x)) for b in br)
                C(bool(np.isfinite(v)) and (near or e is None or abs(mp.mpf(float(v)) - e) <= 1e-9 * (1 + abs(e))), "P06", "finite and accurate in double arithmetic", where[f],
                  "[%s] %s(%g) evaluates to %r" % (kind, f, x, float(v)))
