"""Further obligations on the optimiser's value graph: parameter validation, electron count, status of factorisations,
host buffer layout, snapshots, label matching, smearing coherence, termination measures."""
import math

import numpy as np

from model import *
from term import atoms as BAT
from ri import World, Undecided, Undef, close, fv, hsym
from solver import *
import solver as SV

LAPACK = ("heev", "potr", "getr", "gesv", "posv", "syev", "geev", "potri", "hegv", "sytr", "hetr")
USES = ("gemm", "deep_copy", "op", "compute", "set_fn", "set_mu", "coll", "potrf", "potrs", "eigh")
HOSTW = ("compute", "set_fn", "set_mu")


def restrict_num(b, scal, test):
    """fix the atoms accepted by test to their value under scal; the others stay free"""
    asg = {}
    for a in bsupport(b):
        if test(a):
            v = atomval(a, scal)
            if v is not None:
                asg[a] = v
    return brestrict(b, asg)


def atomval(a, scal):
    try:
        x, y = (scalval(z, scal) for z in a.args[:2])
    except (KeyError, TypeError, ValueError, ZeroDivisionError, OverflowError):
        return None
    if a.op in ("flt", "ilt", "lt"):
        return x < y
    if a.op in ("fle", "ile", "le"):
        return x <= y
    if a.op in ("feq", "ieq", "eq"):
        return x == y
    return None


def scalval(t, scal):
    if t in scal:
        return scal[t]
    if isnum(t):
        return float(t.args[0])
    o = t.op
    if o == "sym":
        return scal[t.args[0]]
    if o == "ite":
        v = evb(t.args[0], scal)
        return scalval(t.args[1] if v else t.args[2], scal)
    a = [scalval(x, scal) for x in t.args if isinstance(x, T)]
    if o == "add":
        return a[0] + a[1]
    if o == "mul":
        return a[0] * a[1]
    if o == "neg":
        return -a[0]
    if o == "div":
        return a[0] / a[1]
    if o in ("abs", "fabs"):
        return abs(a[0])
    if o == "sqrt":
        return math.sqrt(a[0])
    if o == "imod":
        return math.fmod(a[0], a[1])
    if o == "max":
        return max(a)
    if o == "min":
        return min(a)
    if o == "real":
        return a[0]
    raise KeyError(o)


def evb(b, scal):
    while b.lo is not None:
        v = atomval(BAT[b.v], scal)
        if v is None:
            raise KeyError("atom")
        b = b.hi if v else b.lo
    return b is TRUE


# ------------------------------------------------------------------------------------------------- P20
def parameters(s, res, sm):
    """host evaluations and host writes are unreachable with meaningless parameters"""
    cases = [({"T": -1.0}, "a negative temperature"), ({"T": 0.0}, "zero temperature"), ({"T": math.nan}, "a NaN temperature"),
             ({"restart": 0}, "restart period 0"), ({"restart": -3}, "a negative restart period")]
    evs = [e for e in s.I.events if e.kind in HOSTW or (e.kind == "deep_copy" and hostcell(s, e.data[2]))]
    seen = set()
    for sc, what in cases:
        nm = next(iter(sc))
        for e in evs:
            r = restrict_num(e.pc, sc, lambda a: any(l.op == "sym" and l.args[0] == nm for l in leaves(a)))
            ok = r is FALSE
            k = (e.kind, s.where(e), what)
            if k in seen and ok:
                res.add("P20", "host untouched with " + what, "ok")
                continue
            seen.add(k)
            res.check(ok, "P20", "host untouched with " + what, s.where(e), "[%s] the host is %s although %s was given" % (
                sm, "evaluated" if e.kind == "compute" else "modified", what))
        # the run must not end normally either
        r = restrict_num(s.pc, sc, lambda a: any(l.op == "sym" and l.args[0] == nm for l in leaves(a)))
        res.check(r is FALSE, "P20", "error raised for " + what, "nlcg_us_cpu", "[%s] %s does not raise an error" % (sm, what))


def hostcell(s, v):
    return isinstance(v, View) and v.cell in (s.B.C, s.B.fn, s.B.hphi, s.B.sphi, s.B.ek)


# ------------------------------------------------------------------------------------------------- P11
def statuses(s, res, sm):
    ev = s.I.events
    n = 0
    for i, e in enumerate(ev):
        if e.kind != "status" or not any(x in e.data[1].lower() for x in LAPACK):
            continue
        st = e.data[0]
        n += 1
        bad = None
        seen = 0
        last = None
        uses = []
        for f in ev[i + 1:]:
            if f.loops[:len(e.loops)] != e.loops:
                break
            if f.kind in ("ret", "kret"):
                last = f
            elif f.kind in USES and not (s.where(f) == s.where(e)):
                uses.append(f)
                if len(uses) > 6:
                    break
        for f in uses + ([last] if last is not None and len(uses) <= 6 else []):
            seen += 1
            for v in (1, -1, 7, -4):
                r = restrict_num(f.pc, {st: float(v)}, lambda a: st in leaves_all(a))
                if r is not FALSE:
                    bad = (f, v)
                    break
            if bad:
                break
        loc = s.where(e)
        if bad is None and not seen:
            res.add("P11", "status checked before use", "und", loc, "nothing follows %s" % e.data[1])
            continue
        res.check(bad is None, "P11", "status checked before use", loc,
                  "[%s] a nonzero status (%s) of %s does not stop the computation: %s at %s is still reached" % (
                      sm, bad[1] if bad else "", e.data[1], bad[0].kind if bad else "", s.where(bad[0]) if bad else ""))
    if n == 0:
        res.add("P11", "status checked before use", "und", "nlcg_us_cpu", "no factorisation found")


_la = {}


def leaves_all(t):
    """all subterms"""
    r = _la.get(t)
    if r is None:
        r = OSet()
        st = [t]
        while st:
            x = st.pop()
            if x in r:
                continue
            if isinstance(x, T):
                r.add(x)
                st.extend(y for y in x.args if isinstance(y, (T, B)))
            elif isinstance(x, B):
                st.extend(bsupport(x))
        _la[t] = r
    return r


# ------------------------------------------------------------------------------------------------- P08
TOLN = {"FERMI_DIRAC": 1e-8, "GAUSSIAN_SPLINE": 1e-8, "GAUSS": 1e-8, "METHFESSEL_PAXTON": 1e-2, "COLD": 1e-2}


def cases_of(t, g=TRUE, depth=0):
    """(guard, leaf) cases of a nested ite"""
    if isinstance(t, T) and t.op == "ite" and depth < 30:
        return cases_of(t.args[1], band(g, t.args[0]), depth + 1) + cases_of(t.args[2], band(g, bnot(t.args[0])), depth + 1)
    return [(g, t)] if g is not FALSE else []


def residual_of(a):
    """the (sum - nel) argument of a comparison: list of (residual term, N term)"""
    out = []
    for x in leaves_all(a):
        if x.op == "add" and len(x.args) == 2:
            l, r = x.args
            nl = S("nel")
            if l is nl and r.op == "neg":
                out.append((x, r.args[0]))
            elif r is nl and l.op == "neg":
                out.append((x, l.args[0]))
            elif l is neg(nl):
                out.append((x, r))
            elif r is neg(nl):
                out.append((x, l))
    return out


def electrons(m, res):
    s, sm = m.s, m.smear
    tol = TOLN[sm]
    nev = 0
    for e in s.ev("set_mu"):
        loc = s.where(e)
        mu = e.data[0]
        # eigenvalues this search is about: those of the occupations set together with mu
        f = nearest(s, e, "set_fn")
        if f is None:
            res.add("P08", "electron count verified", "und", loc, "no occupations handed over with this chemical potential")
            continue
        nev += 1
        for g, v in cases_of(mu):
            pcg = band(e.pc, g)
            if pcg is FALSE:
                continue
            own = own_atoms(m, s, pcg, f, v)
            if own is None:
                res.add("P08", "electron count verified", "und", loc, "occupations not modelled")
                continue
            ok, wit = True, None
            bads = [2 * tol, -2 * tol, 1.0, -1.0, 7.0, -7.0]
            if tol < 1e-3:
                bads += [1e-5, -1e-5, math.nan]
            if tol > 1e-3:
                bads += [0.0101, -0.0101]
            for d in bads:
                if sat(pcg, own, d):
                    ok, wit = False, d
                    break
            res.check(ok, "P08", "electron count verified", loc,
                      "[%s] a chemical potential is handed out although the electron count may be off by %s (no check of |N(mu)-N| bounds it on this path)" % (sm, wit))
            if ok:
                res.check(sat(pcg, own, 0.0), "P08", "an exact chemical potential is accepted", loc, "[%s] the search rejects a chemical potential that gives the electron count" % sm)
    if nev == 0:
        res.add("P08", "electron count verified", "viol", "nlcg_us_cpu", "[%s] no chemical potential is handed to the host" % sm)


def nearest(s, e, kind):
    c = [f for f in s.ev(kind) if f.loops == e.loops and f.stack[:-1] == e.stack[:-1]]
    if not c:
        c = [f for f in s.ev(kind) if f.loops == e.loops]
    if not c:
        return None
    idx = {id(x): i for i, x in enumerate(s.I.events)}
    return min(c, key=lambda f: abs(idx[id(f)] - idx[id(e)]))


def own_atoms(m, s, pcg, f, v):
    """atoms of the guard that compare the electron count at mu = v: {atom: residual term}.  Decided by value: the sum in the
    comparison equals the weighted sum of the occupations handed over with v, over every band of every k-point of all ranks"""
    ks, fs = f.data
    inl = bool(f.loops)
    body = fs.elem
    if isinstance(body, Vec):
        body = s.I.absvec(body)
    if not (isinstance(body, Vec) and isinstance(body.body, T)):
        return None
    at = [a for a in bsupport(pcg) if any(l.op == "sym" and l.args[0] == "nel" for l in leaves(a))]
    out = {}
    for n in range(3):
        w = m.headworld(7000 + n, slope=-0.3, need_back=False, extra={p: n for p in m.iters}) if inl else m.world(7000 + n)
        w.feasible(TRUE, {"R": 0, "K": 0}, free_atom, w.rng)
        # a concrete choice of the case: occupations as functions of v
        try:
            mu = w.ev(v, {"R": 0})
            tot = count(m, w, body.body, v, mu, f)
        except (Undef, Undecided):
            return None
        for a in at:
            hit = None
            for x, N in residual_of(a):
                try:
                    if close(w.ev(N, {"R": 0}), tot, 1e-7):
                        hit = x
                except (Undef, Undecided):
                    pass
            if n == 0:
                if hit is not None:
                    out[a] = hit
            elif a in out and hit is None:
                del out[a]
    return out


def count(m, w, body, v, mu, f):
    """weighted occupation sum of the eigenvalues behind these occupations, at chemical potential mu"""
    eks = eig_arg(m, w, body, mu)
    return sum(w.ref.wk[k] * float(np.sum(x)) for k, x in enumerate(w.ref.fn(eks, mu)))


def eig_arg(m, w, body, mu):
    """eigenvalues: the array-valued leaf e for which the occupation handed over is the smearing function at (mu-e)/kT"""
    first = None
    for x in leaves_all(body):
        if not (x.op == "el" and x.args[-1] is IX0 and len(x.args) == 2):
            continue
        try:
            val, occ = [], []
            for k in range(w.nk):
                env = {"K": k, "R": m.owner(w, k)}
                val.append(np.array([float(np.real(w.ev(x, dict(env, ix0=i)))) for i in range(w.nb[k])]))
                occ.append(np.array([float(np.real(w.ev(body, dict(env, ix0=i)))) for i in range(w.nb[k])]))
        except (Undef, Undecided):
            continue
        if first is None:
            first = val
        if all(np.allclose(a, b, rtol=1e-6, atol=1e-9) for a, b in zip(w.ref.fn(val, mu), occ)):
            return val
    if first is None:
        raise Undecided("no eigenvalues behind the occupations")
    return first


def sat(pcg, own, d):
    asg = {}
    for a, x in own.items():
        # residual = +-(N - nel); both signs of d are tried by the caller
        v = atomval(a, {x: d})
        if v is not None:
            asg[a] = v
    return brestrict(pcg, asg) is not FALSE


# ------------------------------------------------------------------------------------------------- P19
def layout(m, res):
    s, sm = m.s, m.smear
    n = 0
    w = m.world(41)
    for e in s.ev("wrap"):
        ptr, ext, stride, a, sl = e.data
        if ptr.cell not in (s.B.C, s.B.hphi, s.B.sphi, s.B.fn, s.B.ek, s.B.ekin):
            continue
        n += 1
        mm = {K: sl} if sl is not None else {}
        we = tuple(subst(x, mm) for x in a.ext)
        ws = tuple(subst(x, mm) for x in a.stride)
        loc = s.where(e)
        name = s.I.names.get(ptr.cell, "") if hasattr(s.I, "names") else ""
        res.check(isnum(ptr.off) and ptr.off.args[0] == 0 if hasattr(ptr, "off") else True, "P19", "host array start", loc, "[%s] a host array is not accessed from its first element" % sm)
        res.check(len(ext) == len(we) and all(eqdim(w, x, y) for x, y in zip(ext, we)), "P19", "host array extents", loc,
                  "[%s] a host array is accessed with extents %s instead of the declared %s" % (sm, [show(x, 0, 3) for x in ext], [show(x, 0, 3) for x in we]))
        res.check(len(stride) == len(ws) and all(eqdim(w, x, y) for x, y in zip(stride, ws)), "P19", "host array strides", loc,
                  "[%s] a host array is accessed with strides %s instead of the declared %s" % (sm, [show(x, 0, 3) for x in stride], [show(x, 0, 3) for x in ws]))
    if n == 0:
        res.add("P19", "host array extents", "und", "nlcg_us_cpu", "no access to host arrays found")
    for e in s.ev("op"):
        d = e.data
        for side in ("in", "out"):
            b, r = d[side], d["r" + side]
            loc = s.where(e)
            if not isinstance(b, Rec) or r is None:
                res.add("P19", "buffers handed to host operators", "und", loc, "operator buffer not modelled")
                continue
            arr = r[1]
            ok = []
            for fld, want in (("size", arr.ext), ("stride", arr.stride)):
                v = b.f.get(fld)
                it = v.items if isinstance(v, Vec) else None
                ok.append(it is not None and len(it) == len(want) and all(eqdim(w, x, y) for x, y in zip(it, want)))
            res.check(all(ok), "P19", "buffers handed to host operators", loc, "[%s] size or stride declared to the host operator %s is not the one of the array" % (sm, d["op"]))
            mt = b.f.get("memtype")
            res.check(isinstance(mt, T) and isnum(mt) and mt.args[0] == 1, "P19", "memory kind handed to host operators", loc, "[%s] memory kind declared to the host operator %s is not host memory" % (sm, d["op"]))
    for e in s.ev("memtype"):
        mt = e.data[1]
        res.check(isnum(mt) and mt.args[0] == 1, "P19", "memory kind requested", s.where(e), "[%s] host solver asks for %s in memory kind %s" % (sm, e.data[0], show(mt)))


def eqdim(w, x, y):
    if x is y:
        return True
    for k in range(w.nk):
        r = next(i for i, l in enumerate(w.ranks) if k in l)
        try:
            env = {"K": k, "R": r}
            mm = {}
            for z in leaves_all(x) | leaves_all(y):
                if z.op == "phi":
                    mm[z] = num(0)
            if w.ev(subst(x, mm), env) != w.ev(subst(y, mm), env):
                return False
        except (Undef, Undecided):
            return False
    return True


# ------------------------------------------------------------------------------------------------- P24
def labels(m, res):
    s, sm = m.s, m.smear
    n = 0
    for e in s.I.events:
        if e.kind == "set_fn":
            n += 1
            res.add("P24", "occupations labelled", "ok")
        elif e.kind == "set_fn_bad":
            res.add("P24", "occupations labelled", "viol", s.where(e), "[%s] the list of labels and the list of occupations handed to the host are not in the same order" % sm)
        elif e.kind == "op":
            res.check(e.data["key"] is K, "P24", "operator applied under its own label", s.where(e), "[%s] host operator %s is applied with the label of another k-point" % (sm, e.data["op"]))


# ------------------------------------------------------------------------------------------------- P25
def snapshots(m, res):
    s, sm = m.s, m.smear
    host = {s.B.C: "orbitals", s.B.hphi: "H|psi>", s.B.sphi: "S|psi>", s.B.fn: "occupations", s.B.ek: "band energies"}
    n = 0
    for (ph, init, nxt, key) in m.l.phis:
        for v in (init, nxt):
            for x in views(v):
                n += 1
                res.check(x.cell not in host, "P25", "kept arrays are private", m.where,
                          "[%s] %s kept from iteration to iteration is the host's own %s array" % (sm, key.replace("@handle", ""), host.get(x.cell, "")))
    mir = {("P14", "trial on the geodesic"): "trial independent of earlier trials", ("P14", "accepted point on the geodesic"): "start point intact after the search",
           ("P03", "orbital direction of the new state"): "previous direction intact", ("P03", "eta direction of the new state"): "previous eta direction intact",
           ("P03", "backend evaluated at its own orbitals"): "host state intact"}
    for (k, r) in mir.items():
        d = res.o.get(k)
        if d:
            e = res.o.setdefault(("P25", r), {"ok": 0, "viol": [], "und": []})
            e["ok"] += d["ok"]
            e["viol"] += d["viol"]
            e["und"] += d["und"]


def views(v):
    if isinstance(v, View):
        return [v] if v.cell is not None else []
    if isinstance(v, Rec):
        return [y for x in v.f.values() for y in views(x)]
    if isinstance(v, Map):
        return [y for x in v.s.values() for y in views(x)]
    return []


# ------------------------------------------------------------------------------------------------- P05
def coherence(m, res):
    mir = {("P07", "occupations"): "occupations use the announced kind", ("P07", "trial occupations"): "trial occupations use the announced kind",
           ("P07", "initial occupations"): "initial occupations use the announced kind",
           ("P13", "entropy"): "entropy uses the announced kind", ("P13", "initial entropy"): "initial entropy uses the announced kind",
           ("P23", "initial slope"): "initial gradient uses the announced kind", ("P23", "slope of the new direction"): "gradient uses the announced kind",
           ("P08", "electron count verified"): "chemical potential uses the announced kind"}
    for k, r in mir.items():
        d = res.o.get(k)
        if d:
            e = res.o.setdefault(("P05", r), {"ok": 0, "viol": [], "und": []})
            e["ok"] += d["ok"]
            e["viol"] += d["viol"]
            e["und"] += d["und"]


def extra(m, res, tier):
    s = m.s
    parameters(s, res, m.smear)
    statuses(s, res, m.smear)
    electrons(m, res)
    layout(m, res)
    labels(m, res)
    snapshots(m, res)
    coherence(m, res)
