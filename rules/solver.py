"""Obligations on the optimiser entry point (one smearing enumerator).

The value graph of the entry point gives, for the main iteration, the loop-carried values (phi), their
initial values and their values on the back edge, plus the gated result.  Roles are assigned by meaning:
backend cells are known, every other loop-carried value is classified by the value it has initially and
(inductively) on the back edge.  Obligations compare back-edge values with engine/ref.py in random worlds."""
import math
import random

import numpy as np

from model import *
from ri import World, Undecided, Undef, close, fv, hsym
from ref import Ref, KB

import os
DEBUG = bool(os.environ.get("NLCG_DEBUG"))
DISTS = [((0, 1), (2,)), ((0,), (1, 2)), ((0, 1, 2),), ((2,), (0, 1))]
DIMS = [((2, 3, 2), (4, 5, 4)), ((3, 2, 2), (5, 3, 4)), ((2, 2, 3), (3, 4, 5))]


class Res:
    """collected obligations: (property, rule) -> counts and failures"""

    def __init__(self):
        self.o = {}
        self.notes = []

    def add(self, prop, rule, status, where="", msg=""):
        d = self.o.setdefault((prop, rule), {"ok": 0, "viol": [], "und": []})
        if status == "ok":
            d["ok"] += 1
        elif status == "viol":
            if (where, msg) not in d["viol"] and len(d["viol"]) < 12:
                d["viol"].append((where, msg))
        else:
            if (where, msg) not in d["und"] and len(d["und"]) < 12:
                d["und"].append((where, msg))

    def check(self, cond, prop, rule, where, msg):
        self.add(prop, rule, "ok" if cond else "viol", where, msg)
        return cond


def same(a, b, tol=1e-6):
    a, b = np.asarray(a, complex), np.asarray(b, complex)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.all(np.isfinite(a) == np.isfinite(b)))
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(np.concatenate([a.ravel(), b.ravel(), [0]]))))))


def phsame(x, y, tol=1e-5):
    """equal orbitals up to a phase per band"""
    for a, b in zip(x, y):
        if a.shape != b.shape or not np.all(np.isfinite(a)):
            return False
        for j in range(a.shape[1]):
            ph = np.vdot(b[:, j], a[:, j]) / np.vdot(b[:, j], b[:, j]).real
            if abs(abs(ph) - 1) > tol or not same(a[:, j], ph * b[:, j], tol):
                return False
    return True


def lsame(x, y, tol=1e-6):
    return len(x) == len(y) and all(same(a, b, tol) for a, b in zip(x, y))


ARITH = {"add", "sub", "mul", "div", "neg", "abs", "lt", "le", "eq", "flt", "fle", "feq", "ilt", "ieq", "sqrt", "pow"}


def free_atom(a):
    """electron-count residual comparisons (arithmetic on the electron number itself): no random world makes them small"""
    st = [a]
    first = True
    while st:
        x = st.pop()
        if not isinstance(x, T):
            continue
        if x.op == "sym" and x.args[0] == "nel":
            return True
        if first or x.op in ARITH:
            st.extend(x.args)
        first = False
    return False


class Main:
    def __init__(self, s, res):
        self.s, self.res = s, res
        self.smear = SMEAR[s.smear]
        self.l = s.mainloop()
        if self.l is None:
            raise AnalysisBroken("no optimisation loop with backend evaluations found")
        self.where = self.l.loc
        self.phi = {}
        for (ph, init, nxt, key) in self.l.phis:
            if key.endswith("@handle") or isinstance(init, View):
                continue
            self.phi[ph] = (init, nxt, key)
        self.cell = {}
        for ph, (i, n, key) in self.phi.items():
            for c in ("C", "hphi", "sphi", "fn", "ek", "mu"):
                if key.startswith("backend:%s:" % c):
                    self.cell[c] = ph
            if key.startswith("world:"):
                self.cell["W"] = ph
        for c in ("C", "hphi", "fn", "ek", "mu", "W"):
            if c not in self.cell:
                raise AnalysisBroken("the optimisation loop never changes the backend's %s" % c)

    # ------------------------------------------------------------ worlds
    def world(self, seed, scal=None):
        nb, npw = DIMS[seed % len(DIMS)]
        w = World(seed, nk=3, ranks=DISTS[seed % len(DISTS)], nb=nb, npw=npw, scal=scal)
        w.ref = Ref(w, self.smear)
        w.rng = random.Random(seed)
        return w

    def owner(self, w, k):
        return next(i for i, l in enumerate(w.ranks) if k in l)

    def kind(self, v):
        if isinstance(v, Arr):
            d = []
            for e in v.ext:
                d.append(e.op if e.op in ("nb", "npw") else "?")
            return "/".join(d)
        if isinstance(v, B):
            return "b"
        if isinstance(v, T):
            return "s"
        return "?"

    def value(self, w, v):
        """numeric value: list over k for arrays; scalar otherwise (checked rank independent by rule)"""
        if isinstance(v, Arr):
            out = []
            for k in range(w.nk):
                env = {"K": k, "R": self.owner(w, k)}
                ext = [int(w.re(e, env)) for e in v.ext]
                if len(ext) == 1:
                    out.append(np.array([w.ev(v.body, dict(env, ix0=i)) for i in range(ext[0])]))
                else:
                    out.append(np.array([[w.ev(v.body, dict(env, ix0=i, ix1=j)) for j in range(ext[1])] for i in range(ext[0])], complex))
            return out
        if isinstance(v, B):
            return w.b(v, {"R": 0})
        if v.op in ("W",) or (v.op == "ite" and self.istok(v)):
            return w.wval(v)
        return w.ev(v, {"R": 0})

    def istok(self, v):
        while v.op == "ite":
            v = v.args[1]
        return v.op == "W" or v in (self.cell.get("W"),) or v is mk("sym", "W0")

    def tryval(self, w, v):
        try:
            return self.value(w, v)
        except Undef:
            return None
        except Undecided as e:
            self.res.notes.append("value not modelled: %s" % e)
            return None

    def eq(self, a, b):
        if a is None or b is None:
            return False
        if isinstance(a, list) != isinstance(b, list):
            return False
        if isinstance(a, list):
            return lsame(a, b)
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        return close(a, b, 1e-6)

    # ------------------------------------------------------------ derived quantities of a state
    def derive(self, w, C, wv, ek, mu, fncell, bek):
        r = w.ref
        d = {("npw/nb", "C"): C, ("npw/nb", "H"): [w_Hk(w, wv, k) @ C[k] for k in range(w.nk)],
             ("nb", "bek"): bek, ("s", "mu"): mu}
        d["npw/nb", "SC"] = [r.S(k) @ C[k] for k in range(w.nk)]
        if ek is not None:
            d["nb", "ek"] = ek
            d["nb", "fn"] = r.fn(ek, mu)
            d["nb/nb", "eta"] = [np.diag(e) for e in ek]
            d["s", "kTS"] = r.kTS(ek, mu)
            d["s", "E"] = w_etot(w, wv)
            d["s", "F"] = d["s", "E"] + d["s", "kTS"]
        return d

    # ------------------------------------------------------------ roles
    def find_ek(self):
        """eigenvalue state: V with f((mu-V)/kT) equal to the occupations held by the backend"""
        cands = []
        for ph, (init, nxt, key) in self.phi.items():
            if self.kind(init) in ("nb", "nb/nb") and ph not in self.cell.values():
                cands.append(ph)
        good = {}
        for seed in (11, 12, 13):
            w = self.world(seed)
            mu = self.tryval(w, self.phi[self.cell["mu"]][0])
            fn = self.tryval(w, self.phi[self.cell["fn"]][0])
            for ph in cands:
                v = self.tryval(w, self.phi[ph][0])
                if v is None or mu is None:
                    good[ph] = False
                    continue
                if self.kind(self.phi[ph][0]) == "nb/nb":
                    v = [np.diag(x) for x in v]
                v = [np.real(x) for x in v]
                ok = lsame(w.ref.fn(v, mu), fn)
                good[ph] = good.get(ph, True) and ok
        for ph in cands:
            if good.get(ph) and self.kind(self.phi[ph][0]) == "nb":
                return ph
        for ph in cands:
            if good.get(ph):
                return ph
        return None

    def fallback_ek(self):
        for ph, (init, nxt, key) in self.phi.items():
            if self.kind(init) == "nb" and ph not in self.cell.values():
                for p2, (i2, n2, k2) in self.phi.items():
                    if self.kind(i2) == "nb/nb":
                        ok = True
                        for seed in (11, 12):
                            w = self.world(seed)
                            a, b = self.tryval(w, init), self.tryval(w, i2)
                            ok = ok and a is not None and b is not None and lsame([np.diag(x) for x in a], b)
                        if ok:
                            return ph
        return None

    def ekof(self, v):
        """eigenvalue list from the value of the canonical eigenvalue phi"""
        if v is None:
            return None
        if v and np.ndim(v[0]) == 2:
            return [np.real(np.diag(x)) for x in v]
        return [np.real(x) for x in v]

    def derived_of(self, w, which):
        """which: 0 init, 1 next"""
        g = {c: self.tryval(w, self.phi[self.cell[c]][which]) for c in ("C", "W", "fn", "ek", "mu", "hphi")}
        ek = self.ekof(self.tryval(w, self.phi[self.ek][which]))
        if any(g[c] is None for c in ("C", "W", "mu", "fn", "ek")):
            return None
        return self.derive(w, g["C"], g["W"], ek, g["mu"], g["fn"], g["ek"])

    def infer(self):
        """strongest inductive equalities between loop-carried values and derived quantities"""
        self.ek = self.find_ek()
        self.initial_occupations = self.ek is not None
        if self.ek is None:
            self.ek = self.fallback_ek()
        if self.ek is None:
            raise AnalysisBroken("no loop-carried eigenvalues found")
        cls = {}
        # initial partition
        sigs = {}
        for seed in (21, 22, 23):
            w = self.world(seed)
            d = self.derived_of(w, 0)
            if d is None:
                raise AnalysisBroken("initial backend state not modelled")
            sigs[seed] = (d, {ph: self.tryval(w, i) for ph, (i, n, k) in self.phi.items()})
        names = list(sigs[21][0].keys())
        classes = []     # each: {"def": name or None, "phis": set}
        for nm in names:
            classes.append({"def": nm, "phis": OSet(), "kind": nm[0]})
        for ph, (i, n, k) in self.phi.items():
            if ph is self.cell["W"]:
                continue
            kd = self.kind(i)
            placed = False
            for c in classes:
                if c["kind"] != kd or kd == "b":
                    continue
                ok = True
                for seed, (d, v) in sigs.items():
                    ref = d[c["def"]] if c["def"] else v[next(iter(c["phis"]))]
                    if not self.eq(v[ph], ref):
                        ok = False
                        break
                if ok:
                    c["phis"].add(ph)
                    placed = True
                    break
            if not placed:
                classes.append({"def": None, "phis": OSet([ph]), "kind": kd})
        # canonical cells must keep their own class
        for c in classes:
            if c["def"] == ("nb", "ek"):
                c["phis"].add(self.ek) if self.kind(self.phi[self.ek][0]) == "nb" else None
            if c["def"] in (("npw/nb", "C"), ("nb", "fncell"), ("nb", "bek"), ("s", "mu")):
                pass
        # prefer the definition over fncell: backend fn cell equals fn(ek,mu)
        self.classes = [c for c in classes if c["phis"]]
        # refine
        for rnd in range(12):
            split = False
            for seed in range(100, 112):
                w = self.headworld(seed)
                if w is None:
                    continue
                d = self.derived_of(w, 1)
                if d is None:
                    continue
                new = []
                for c in self.classes:
                    if len(c["phis"]) + (1 if c["def"] else 0) < 2:
                        continue
                    vals = {ph: self.tryval(w, self.phi[ph][1]) for ph in c["phis"]}
                    if c["def"]:
                        ref = d[c["def"]]
                    else:
                        ref = next(iter(vals.values()))
                    bad = OSet(ph for ph in c["phis"] if not self.eq(vals[ph], ref))
                    if bad:
                        c["phis"] -= bad
                        split = True
                        groups = []
                        for ph in bad:
                            for g in groups:
                                if self.eq(vals[ph], vals[next(iter(g))]):
                                    g.add(ph)
                                    break
                            else:
                                groups.append(OSet([ph]))
                        for g in groups:
                            new.append({"def": None, "phis": g, "kind": c["kind"]})
                self.classes = [c for c in self.classes if c["phis"]] + new
            if not split:
                break
        self.rounds = rnd + 1
        self.clsof = {ph: c for c in self.classes for ph in c["phis"]}

    def headworld(self, seed, scal=None, slope=None, ints=None, etot=None, need_back=True, extra=None, consistent=False, dist=None):
        """world whose loop-head values satisfy the inferred equalities; None if the back edge is infeasible"""
        sc = {"restart": 2 + seed % 3, "maxiter": 7}
        sc.update(scal or {})
        w = self.world(seed, sc)
        if dist is not None:
            w.ranks = dist
        nk = w.nk
        rng = w.rng
        C = [np.array([[complex(hsym(seed, "C", k, i, j), hsym(seed, "Ci", k, i, j)) for j in range(w.nb[k])] for i in range(w.npw[k])]) for k in range(nk)]
        ek = [np.array(sorted(hsym(seed, "e", k, j) for j in range(w.nb[k]))) for k in range(nk)]
        mu = 0.5 * hsym(seed, "mu")
        wv = hsym(seed, "wv")
        fnc = [np.array([1 + 0.8 * hsym(seed, "fnc", k, j) for j in range(w.nb[k])]) for k in range(nk)]
        bek = [np.array([hsym(seed, "bek", k, j) for j in range(w.nb[k])]) for k in range(nk)]
        if consistent:
            # a state the backend really evaluated: S-orthonormal orbitals, token value, band energies of that evaluation
            for k in range(nk):
                o = C[k].conj().T @ w.ref.S(k) @ C[k]
                lam, V = np.linalg.eigh((o + o.conj().T) / 2)
                C[k] = C[k] @ V @ np.diag(1 / np.sqrt(lam)) @ V.conj().T
            wv = w_token(w, C, w.ref.fn(ek, mu))
            bek = [np.array([math.cos(wv * (1 + 0.3 * w.rnd("ekf", k, j)) + 3 * w.rnd("ek", k, j)) for j in range(w.nb[k])]) for k in range(nk)]
        w.over[self.cell["W"]] = wv
        if etot is not None:
            w.etot_hook = etot
        w.head = d = self.derive(w, C, wv, ek, mu, fnc, bek)
        w.headv = {}
        for ci, c in enumerate(self.classes):
            rep = min(c["phis"], key=lambda p: self.phi[p][2])
            nm = self.phi[rep][2]
            if c["def"]:
                v = d[c["def"]]
            elif c["kind"] == "b":
                v = rng.random() < 0.5
            elif c["kind"] == "s":
                v = hsym(seed, "s", nm)
                if self.intphi(rep):
                    v = rng.randrange(0, 6)
            elif c["kind"] in ("npw/nb", "nb/nb"):
                a, b = c["kind"].split("/")
                v = [np.array([[complex(hsym(seed, nm, k, i, j), hsym(seed, nm, "i", k, i, j)) for j in range(getattr(w, b)[k])]
                               for i in range(getattr(w, a)[k])]) for k in range(nk)]
                if c["kind"] == "nb/nb":
                    v = [(x + x.conj().T) / 2 for x in v]
            elif c["kind"] == "nb":
                v = [np.array([hsym(seed, nm, k, j) for j in range(w.nb[k])]) for k in range(nk)]
            else:
                continue
            for ph in c["phis"]:
                w.headv[ph] = v
        if slope is not None:
            for ph in self.slopes:
                w.headv[ph] = slope
        for ph, v in (extra or {}).items():
            w.headv[ph] = v
        for ph, v in w.headv.items():
            if isinstance(v, list):
                if np.ndim(v[0]) == 2:
                    w.over[ph] = (lambda v: lambda k, i, j: complex(v[k][i, j]) if i < v[k].shape[0] and j < v[k].shape[1] else 7.7)(v)
                else:
                    w.over[ph] = (lambda v: lambda k, i: (v[k][i].item() if i < len(v[k]) else 7.7))(v)
            else:
                w.over[ph] = v
        if need_back:
            try:
                if not w.feasible(self.l.back, {"R": 0, "K": 0}, free_atom, rng):
                    return None
            except Undecided as e:
                self.res.notes.append("path condition: %s" % e)
                return None
        return w

    def intphi(self, ph):
        i, n, k = self.phi[ph]
        return isinstance(i, T) and isnum(i) and i.args[0].denominator == 1 and isinstance(n, T)


def w_Hk(w, x, k):
    n = w.npw[k]
    return w.herm("H0", k, n) + math.cos(x) * w.herm("H1", k, n)


def w_token(w, C, fn):
    """numeric value World.wval gives to a state token with these orbitals and occupations"""
    r = 0.0
    for k in range(w.nk):
        for i in range(w.npw[k]):
            for j in range(w.nb[k]):
                r += 0.3 * (w.rnd("wC", k, i, j) * C[k][i, j].real + w.rnd("wCi", k, i, j) * C[k][i, j].imag)
        for j in range(w.nb[k]):
            r += 0.3 * w.rnd("wf", k, j) * float(np.real(fn[k][j]))
    return r


def w_etot(w, x):
    return math.cos(1.3 * x) * 2


# ---------------------------------------------------------------------------------------------------
def back_state(m, w):
    """values of the canonical state after one iteration, in world w"""
    g = {c: m.value(w, m.phi[m.cell[c]][1]) for c in ("C", "W", "fn", "ek", "mu", "hphi")}
    g["ekv"] = m.ekof(m.value(w, m.phi[m.ek][1]))
    return g


def step_of(w, ek, head_ek, ze):
    """t from the trace of eta + t*zeta"""
    den = sum(np.trace(z).real for z in ze)
    return (sum(np.sum(e) for e in ek) - sum(np.sum(e) for e in head_ek)) / den


def by_init(m, kind, f):
    """phis whose initial value equals the reference f(world, derived)"""
    out = []
    for ph, (i, n, key) in m.phi.items():
        if m.kind(i) != kind or ph in m.cell.values():
            continue
        ok = True
        for seed in (31, 32, 33):
            w = m.world(seed)
            d = m.derived_of(w, 0)
            if not m.eq(m.tryval(w, i), f(w, d)):
                ok = False
                break
        if ok:
            out.append(ph)
    return out


def grads(w, d):
    g = getattr(w, "_g", None)
    if g is None or g[0] is not d:
        st = {"C": d["npw/nb", "C"], "H": d["npw/nb", "H"], "ek": d["nb", "ek"], "mu": d["s", "mu"], "bek": d["nb", "bek"], "fn": d["nb", "fn"]}
        w._g = (d, w.ref.gradients(st))
    return w._g[1]


def roles(m):
    m.zx = by_init(m, "npw/nb", lambda w, d: grads(w, d)["dx"])
    m.ze = by_init(m, "nb/nb", lambda w, d: grads(w, d)["de"])
    m.sl = by_init(m, "s", lambda w, d: grads(w, d)["fr"])


def guard_phis(m, g):
    """main-loop scalars a guard depends on directly (through comparisons)"""
    out = OSet()
    for a in bsupport(g):
        for x in leaves_of(a):
            if x in m.phi:
                out.add(x)
    return out


def leaves_of(t):
    seen, st, out = set(), [t], OSet()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, T) and x.op in ("phi", "sym"):
            out.add(x)
            continue
        from ri import _kids
        st.extend(_kids(x))
    return out


def assign_roles(m, res):
    """directions, slope, iteration counter; falls back to the only candidate left when the initial value is wrong"""
    roles(m)
    wl = m.where
    used = {p for c in m.classes if c["def"] for p in c["phis"]} | set(m.cell.values())

    def pick(name, lst, kind, f=lambda ph: True):
        if lst:
            res.add("P23", "initial " + name, "ok")
            return lst
        rest = [p for p, (i, n, k) in m.phi.items() if m.kind(i) == kind and p not in used and f(p)]
        ok = []
        for p in rest:
            w = m.world(31)
            if m.tryval(w, m.phi[p][0]) is not None:
                ok.append(p)
        if len(ok) != 1:
            raise AnalysisBroken("cannot identify the %s among %s" % (name, [m.phi[p][2] for p in rest]))
        res.add("P23", "initial " + name, "viol", wl, "initial %s (%s) is not the preconditioned gradient direction of the initial state"
                % (name, m.phi[ok[0]][2]))
        return ok
    m.zx = pick("orbital search direction", m.zx, "npw/nb")
    m.ze = pick("pseudo-Hamiltonian search direction", m.ze, "nb/nb")
    conv = m.s.result.f.get("converged") if isinstance(m.s.result, Rec) else None
    m.conv = conv
    gp = guard_phis(m, conv) if isinstance(conv, B) else OSet()
    cand = [p for p in m.sl if p in gp]
    if not cand:
        cand = [p for p in m.sl]
        if not cand:
            cand = [p for p in gp if m.kind(m.phi[p][0]) == "s" and not m.intphi(p)]
            if cand:
                res.add("P23", "initial slope", "viol", wl, "initial slope is not the derivative of the free energy along the initial direction")
    else:
        res.add("P23", "initial slope", "ok")
    if not cand:
        raise AnalysisBroken("cannot identify the slope of the free energy")
    m.slopes = cand
    m.iters = [p for p, (i, n, k) in m.phi.items() if m.intphi(p) and n is add(p, ONE)]
    m.frs = [p for p in m.sl]


def backedge(m, res, nseeds, tier):
    s = m.s
    wl = m.where
    sm = m.smear
    npaths = 0
    nconj = nreset = nacc = nnan = 0
    qset = None
    bset = OSet(p for p, (i, n, k) in m.phi.items() if m.kind(i) == "b")
    badreset = False
    for n in range(nseeds):
        seed = 1000 + n
        mode = n % 4
        slope = -0.05 - 0.9 * abs(hsym(seed, "slope"))
        sc = {}
        etot = None
        if mode in (1, 3):
            # adversarial total energies: far below, far above, not a number
            def etot(w, tok, seed=seed, nan=(mode == 3)):
                if tok.op != "W":
                    return None
                u = hsym(seed, "etot", tok.id % 100003)
                if nan and u > 0.2:
                    return math.nan
                return 60.0 * u
        if mode == 2:
            sc = {"T": 4e4 + 1e5 * abs(hsym(seed, "T")), "tau": 0.5}
        ex = {}
        for it in m.iters:
            ex[it] = n % 6
        w = m.headworld(seed, scal=sc, slope=slope, etot=etot, extra=ex)
        if w is None:
            continue
        try:
            g = back_state(m, w)
        except Undef as e:
            res.add("P15", "initialised state", "viol", wl, "an iteration can carry an uninitialised value (%s) into the next one" % e)
            continue
        except Undecided as e:
            res.add("*", "back edge", "und", wl, str(e))
            continue
        npaths += 1
        ek2, mu2 = g["ekv"], g["mu"]
        hd = w.head
        zx, ze = w.headv[m.zx[0]], w.headv[m.ze[0]]
        d2 = m.derive(w, g["C"], g["W"], ek2, mu2, g["fn"], g["ek"])
        F0 = hd["s", "F"]
        try:
            tok = tokterm(m, w, m.phi[m.cell["W"]][1])
            E2 = w.ev(mk("etot", tok), {"R": 0})
            H2 = [w_Hk(w, g["W"], k) @ g["C"][k] for k in range(w.nk)]
        except Undecided as e:
            res.add("*", "back edge", "und", wl, str(e))
            continue
        F2 = E2 + w.ref.kTS(ek2, mu2)
        t = step_of(w, ek2, hd["nb", "ek"], ze)
        if not math.isfinite(t) or not all(np.all(np.isfinite(x)) for x in g["C"]):
            nnan += 1
            res.check(not m.eqnum(F2, F0) and F2 <= F0, "P02", "descent", wl,
                      "an iteration is accepted although the step length or the new free energy is not a number")
            continue
        # -- geodesic
        try:
            ekr, U, X = w.ref.geodesic(hd["npw/nb", "C"], hd["nb/nb", "eta"], zx, ze, t, World.canon_eigh)
        except np.linalg.LinAlgError:
            continue
        okg = lsame(ek2, ekr) and lsame(g["C"], X, 1e-5)
        res.check(okg, "P14", "accepted point on the geodesic", wl,
                  "[%s] orbitals/eigenvalues kept by the iteration are not the geodesic point orth(X+t Zx)U, eig(eta+t Zeta) of the state it started from" % sm)
        res.check(okg, "P03", "accepted point belongs to the current state", wl,
                  "[%s] the step does not start from the state last evaluated by the backend" % sm)
        # -- occupations
        okf = lsame(g["fn"], w.ref.fn(ek2, mu2))
        res.check(okf, "P07", "occupations", wl, "[%s] occupations held by the backend are not f((mu-e)/kT) for the accepted eigenvalues and the chemical potential set in the backend" % sm)
        # -- hphi fresh
        res.check(lsame(g["hphi"], H2), "P03", "backend evaluated at its own orbitals", wl, "[%s] H*psi is not the one of the orbitals the backend holds" % sm)
        # -- free energy fields
        for ph in m.Fs:
            v = m.tryval(w, m.phi[ph][1])
            res.check(v is not None and m.eqnum(v, F2), "P13", "free energy", wl, "[%s] %s after the iteration is not E + kT*S of the accepted state" % (sm, m.phi[ph][2]))
        for ph in m.Ss:
            v = m.tryval(w, m.phi[ph][1])
            res.check(v is not None and m.eqnum(v, w.ref.kTS(ek2, mu2)), "P13", "entropy", wl, "[%s] %s after the iteration is not kT*S of the accepted state" % (sm, m.phi[ph][2]))
        # -- descent or reset
        reset = abs(t) < 1e-12
        # -- direction
        try:
            st = {"C": g["C"], "H": H2, "ek": ek2, "mu": mu2, "bek": g["ek"], "fn": w.ref.fn(ek2, mu2)}
            G = w.ref.gradients(st)
            rx, re_, sl = w.ref.conj(G, zx, ze, U)
        except np.linalg.LinAlgError:
            continue
        zx2, ze2 = m.tryval(w, m.phi[m.zx[0]][1]), m.tryval(w, m.phi[m.ze[0]][1])
        slope2 = m.tryval(w, m.phi[m.slopes[0]][1])
        if zx2 is None or ze2 is None or slope2 is None:
            res.add("*", "direction", "und", wl, "direction not modelled")
            continue
        den = sum(np.vdot(a, a).real for a in rx) + sum(np.vdot(a, a).real for a in re_)
        gam = (sum(np.vdot(a, b - c) for a, b, c in zip(rx, zx2, G["dx"])) + sum(np.vdot(a, b - c) for a, b, c in zip(re_, ze2, G["de"]))) / den
        gam = gam.real
        okx = lsame(zx2, [a + gam * b for a, b in zip(G["dx"], rx)], 1e-5)
        oke = lsame(ze2, [a + gam * b for a, b in zip(G["de"], re_)], 1e-5)
        oks = close(slope2, G["fr"] + gam * sl, 1e-5)
        for p in ("P03", "P21", "P23"):
            res.check(okx, p, "orbital direction of the new state", wl, "[%s] orbital direction is not delta_x + gamma*transported Z_x of the accepted state" % sm)
            res.check(oke, p, "eta direction of the new state", wl, "[%s] eta direction is not delta_eta + gamma*U^H Z_eta U of the accepted state" % sm)
            res.check(oks, p, "slope of the new direction", wl, "[%s] slope carried to the next iteration is not the free-energy derivative along the new direction" % sm)
        if not (okx and oke and oks):
            continue
        scale = abs(G["fr"] / (w.headv[m.frs[0]] if m.frs and m.frs[0] in w.headv else 1.0))
        conj = abs(gam) > 1e-9 * (1 + scale)
        acc = F2 <= F0
        if acc:
            nacc += 1
        res.check(acc or (reset and not conj), "P02", "descent", wl,
                  "[%s] an iteration may keep a state whose free energy is not <= the previous one (or is NaN) without resetting to the previous state and steepest descent" % sm)
        if reset:
            nreset += 1
            res.check(not conj, "P21", "restart after a failed search", wl, "[%s] conjugation is kept after a failed line search" % sm)
            bset = OSet(b for b in bset if m.tryval(w, m.phi[b][1]) is True and w.headv.get(b) is False)
        if conj:
            nconj += 1
            res.check(not slope2 > 0, "P21", "ascent direction dropped", wl, "[%s] a conjugate direction with positive slope is kept" % sm)
            q = OSet(ph for ph in m.phi if m.kind(m.phi[ph][0]) == "s" and ph in w.headv and close(gam * w.headv[ph], G["fr"], 1e-5)
                 and close(m.tryval(w, m.phi[ph][1]) or 0.0, G["fr"], 1e-5))
            qset = q if qset is None else qset & q
        else:
            pass
        for f in m.frs:
            if qset is not None and f in qset:
                res.check(close(m.tryval(w, m.phi[f][1]) or 0.0, G["fr"], 1e-5), "P21", "Fletcher-Reeves numerator", wl, "[%s] stored gradient norm is not the one of the accepted state" % sm)
    m.stats = {"paths": npaths, "conj": nconj, "reset": nreset, "accepted": nacc, "nan": nnan}
    if npaths == 0:
        raise AnalysisBroken("no feasible iteration of the main loop found")
    if nconj == 0:
        if any(v["viol"] for (p, r), v in res.o.items() if p == "P21"):
            pass
        else:
            res.add("P21", "conjugation", "viol", wl, "[%s] the search direction is never conjugated" % sm)
    else:
        res.check(bool(qset), "P21", "Fletcher-Reeves ratio", wl, "[%s] gamma is not <g,d>_new/<g,d>_old with the numerator carried from iteration to iteration" % sm)
    if nreset:
        res.check(bool(bset), "P18", "second failure aborts", wl, "[%s] a reset after a failed search is not remembered: two failed searches in a row may loop instead of aborting" % sm)
    else:
        res.add("P18", "second failure aborts", "und", wl, "no reset path sampled")
    return npaths


def getfield(rec, name):
    v = rec.f.get(name)
    return v


def returns(m, res, nseeds):
    """obligations on the state in which the entry point returns"""
    s = m.s
    wl = m.where
    sm = m.smear
    if not isinstance(s.result, Rec) or "converged" not in s.result.f:
        raise AnalysisBroken("result record of the entry point not found")
    fld = s.result.f
    st = s.I.st
    final = {c: st.get(getattr(s.B, c)) for c in ("C", "W", "fn", "mu")}
    n_ret = {"conv": 0, "limit": 0, "fail": 0, "nan": 0}
    for n in range(nseeds):
        seed = 3000 + n
        mode = n % 8
        tol = 1e-3
        it = n % 5
        sc = {"tol": tol, "maxiter": 7}
        etot = None
        slope = -0.3
        if mode == 0:
            slope = 0.4 * tol * (1 if n % 16 else -1)
        elif mode == 1:
            slope = -0.4 * tol
        elif mode == 2:
            it = 7
        elif mode == 3:
            slope = 2.5 * tol          # ascent
        elif mode == 4:
            slope = math.nan
        elif mode == 5:
            it, slope = 7, -0.4 * tol
        elif mode == 6:
            slope = -3 * tol
        if mode in (4, 6, 7):
            def etot(w, tok, seed=seed):
                if tok.op != "W":
                    return None
                return 40.0 + abs(hsym(seed, "et", tok.id % 100003))
        ex = {p: it for p in m.iters}
        for p, (i, nx, k) in m.phi.items():
            if m.kind(i) == "b":
                ex[p] = True
        w = m.headworld(seed, scal=sc, slope=slope, etot=etot, need_back=False, extra=ex, consistent=True)
        try:
            if not w.feasible(s.pc, {"R": 0, "K": 0}, free_atom, w.rng):
                continue
            conv = w.b(fld["converged"], {"R": 0}) if isinstance(fld["converged"], B) else bool(w.ev(fld["converged"], {"R": 0}))
        except Undef as e:
            res.add("P01", "converged flag initialised", "viol", wl, "[%s] the convergence flag can be returned uninitialised" % sm)
            continue
        except Undecided as e:
            res.add("*", "return", "und", wl, str(e))
            continue
        # which state does the backend hold on return
        head = w.head
        fin = {c: m.tryval(w, v) for c, v in final.items()}
        if any(v is None for v in fin.values()):
            res.add("*", "return state", "und", wl, "final backend state not modelled")
            continue
        which = None
        if lsame(fin["C"], head["npw/nb", "C"], 1e-5) and lsame(fin["fn"], head["nb", "fn"], 1e-5) and m.eqnum(fin["mu"], head["s", "mu"]) and m.eqnum(fin["W"], w.over[m.cell["W"]]):
            which = "head"
            F, kTS, sl = head["s", "F"], head["s", "kTS"], w.headv[m.slopes[0]]
            itx = it
        else:
            try:
                C0, ek0 = head["npw/nb", "C"], head["nb", "ek"]
                if phsame(fin["C"], C0) and lsame(fin["fn"], head["nb", "fn"], 1e-5):
                    which = "head*"      # orbitals and occupations restored, chemical potential recomputed
                    F, kTS, sl, itx = head["s", "F"], head["s", "kTS"], w.headv[m.slopes[0]], it
                else:
                    g = back_state(m, w)
                    if lsame(fin["C"], g["C"]) and lsame(fin["fn"], g["fn"]):
                        which = "next"
                        sl = m.tryval(w, m.phi[m.slopes[0]][1])
                        kTS = w.ref.kTS(g["ekv"], g["mu"])
                        F = w.ev(mk("etot", tokterm(m, w, m.phi[m.cell["W"]][1])), {"R": 0}) + kTS
                        itx = it + 1
            except (Undef, Undecided):
                pass
        if which is None:
            # restored point: the chemical potential search is not reproducible in a random world; compare geometry only
            if phsame(fin["C"], head["npw/nb", "C"]):
                which = "head*"
                F, kTS, sl, itx = head["s", "F"], head["s", "kTS"], w.headv[m.slopes[0]], it
        if which is None:
            if DEBUG:
                print("RET", mode, it, slope, [np.abs(a - b).max() for a, b in zip(fin["C"], head["npw/nb", "C"])], fin["W"], w.over[m.cell["W"]], fin["mu"])
            res.add("P15", "state described", "viol", wl,
                    "[%s] the solver can return while the backend holds orbitals that belong to neither the last accepted state nor the step just accepted" % sm)
            res.add("P03", "state on return", "viol", wl, "[%s] the backend is left in a rejected trial state on return" % sm)
            continue
        res.add("P15", "state described", "ok")
        res.add("P03", "state on return", "ok")
        # -- convergence claim
        small = abs(sl) < tol if sl == sl else False
        res.check((not conv) or small, "P01", "convergence claim", wl,
                  "[%s] converged is reported although the slope of the returned state is not below the tolerance (|slope|/tol=%s, NaN counts as not converged)" % (sm, "nan" if sl != sl else "%.3g" % (abs(sl) / tol)))
        if small and it < 7 and which == "head":
            res.check(conv, "P01", "convergence noticed", wl, "[%s] the slope is below the tolerance and the iteration limit is not reached, but converged is not reported" % sm)
        if conv:
            n_ret["conv"] += 1
        elif it >= 7:
            n_ret["limit"] += 1
        else:
            n_ret["fail"] += 1
        # -- fields
        for name, want, what in (("F", F, "free energy"), ("S", kTS, "entropy"), ("tolerance", sl, "slope"), ("iter", itx, "iteration count")):
            if name not in fld:
                raise AnalysisBroken("result field %s not found" % name)
            try:
                v = m.value(w, fld[name])
            except Undef:
                res.add("P15", "field " + name, "viol", wl, "[%s] result field '%s' can be returned uninitialised" % (sm, name))
                continue
            except Undecided as e:
                res.add("P15", "field " + name, "und", wl, str(e))
                continue
            res.check(m.eqnum(float(np.real(v)), float(want)), "P15", "field " + name, wl,
                      "[%s] result field '%s' is not the %s of the state the backend holds on return (%s exit)" % (
                          sm, name, what, "converged" if conv else "iteration limit" if it >= 7 else "failed search"))
    m.rstats = n_ret
    for k, r in (("conv", "converged exit"), ("limit", "iteration limit exit")):
        if not n_ret[k]:
            res.add("P01", r, "und", wl, "no return through the %s was feasible" % r)


def trials(m, res, nseeds):
    """every backend evaluation of an iteration: geodesic point, occupations, no evaluation when nothing is left to do"""
    s = m.s
    wl = m.where
    sm = m.smear
    evs = [(i, e) for i, e in enumerate(s.I.events) if e.kind == "compute" and e.loops and e.loops[0] == m.l.id]
    mus = [(i, e) for i, e in enumerate(s.I.events) if e.kind == "set_mu" and e.loops and e.loops[0] == m.l.id]
    for n in range(nseeds):
        seed = 5000 + n
        w = m.headworld(seed, slope=-0.3, need_back=False, extra={p: n % 4 for p in m.iters})
        w.feasible(TRUE, {"R": 0, "K": 0}, free_atom, w.rng)
        hd = w.head
        zx, ze = w.headv[m.zx[0]], w.headv[m.ze[0]]
        for (i, e) in evs:
            loc = s.where(e)
            tok = e.data[0]
            mats = find_eig(tok)
            if not mats:
                res.add("P14", "trial on the geodesic", "und", loc, "trial state has no eigenvector factor")
                continue
            try:
                C = kvals(m, w, tok.args[1], ("npw", "nb"))
                fn = kvals(m, w, tok.args[2], ("nb",))
                tt = None
                for mt in mats:
                    M = kvals(m, w, mt, ("nb", "nb"))
                    num = sum(np.vdot(z, a - b) for z, a, b in zip(ze, M, hd["nb/nb", "eta"]))
                    den = sum(np.vdot(z, z).real for z in ze)
                    t = (num / den).real
                    if lsame(M, [a + t * z for a, z in zip(hd["nb/nb", "eta"], ze)], 1e-5):
                        tt = t
                        break
                if tt is None:
                    res.add("P14", "trial on the geodesic", "viol", loc, "[%s] a trial point is not reached from the current pseudo-Hamiltonian along the search direction" % sm)
                    continue
                ekr, U, X = w.ref.geodesic(hd["npw/nb", "C"], hd["nb/nb", "eta"], zx, ze, tt, World.canon_eigh)
            except (Undef, Undecided) as ex:
                res.add("P14", "trial on the geodesic", "und", loc, str(ex))
                continue
            except np.linalg.LinAlgError:
                continue
            res.check(lsame(C, X, 1e-5), "P14", "trial on the geodesic", loc,
                      "[%s] orbitals of a trial are not orth(X + t Zx) U(eta + t Zeta) of the current state (depend on an earlier trial or use another step)" % sm)
            cand = [f for (j, f) in mus if f.loops == e.loops and f.stack == e.stack]
            if not cand:
                cand = [f for (j, f) in mus if f.loops == e.loops]
            if not cand:
                res.add("P07", "chemical potential handed over", "viol", loc, "[%s] a trial state is evaluated without handing its chemical potential to the backend" % sm)
                continue
            ok = False
            for f in cand:
                try:
                    mu = w.ev(f.data[0], {"R": 0})
                except (Undef, Undecided):
                    continue
                if lsame(fn, w.ref.fn(ekr, mu), 1e-6):
                    ok = True
                    break
            res.check(ok, "P07", "trial occupations", loc, "[%s] occupations of a trial state are not f((mu-e)/kT) of its eigenvalues at the chemical potential handed to the backend" % sm)
    # nothing is evaluated once the search is over
    for n, (it, slope, why) in enumerate(((7, -0.3, "the iteration limit is reached"), (9, -0.3, "the iteration limit is passed"), (2, 4e-4, "the slope is below the tolerance"),
                                          (2, -4e-4, "the slope is below the tolerance"), (0, 0.2, "the direction is an ascent direction"), (3, 0.7, "the direction is an ascent direction"))):
        w = m.headworld(5100 + n, slope=slope, scal={"maxiter": 7, "tol": 1e-3}, need_back=False, extra={p: it for p in m.iters})
        w.feasible(TRUE, {"R": 0, "K": 0}, free_atom, w.rng)
        for (i, e) in evs:
            try:
                r = w.b(e.pc, {"R": 0, "K": 0})
            except (Undef, Undecided) as ex:
                res.add("P18", "no evaluation after the end", "und", s.where(e), str(ex))
                continue
            res.check(not r, "P18", "no evaluation after the end", s.where(e), "[%s] the backend is evaluated although %s" % (sm, why))
        try:
            r = w.b(m.l.back, {"R": 0, "K": 0})
            res.check(not r, "P18", "iteration ends", wl, "[%s] the iteration continues although %s" % (sm, why))
        except (Undef, Undecided) as ex:
            res.add("P18", "iteration ends", "und", wl, str(ex))


def rankdep(s, m, g):
    """atoms of a guard whose truth may differ between ranks"""
    return [a for a in bsupport(g) if "R" in fv(a) and not contains_op(a, "status")]


def contains_op(t, op):
    return contains(t, lambda x: x.op == op)


LOCALC = ("commg", "ompi_mpi_comm_self")


def ranks(m, res, nseeds):
    """collective congruence and independence of the k-point distribution"""
    s = m.s
    sm = m.smear
    wl = m.where
    loops = {l.id: l for l in s.I.loops}
    ncoll = 0
    for e in s.I.events:
        if e.kind != "coll":
            continue
        comm = e.data["comm"]
        loc = s.where(e)
        names = [x.args[0] for x in leaves(comm) if x.op == "comm"]
        if names and all(n in LOCALC for n in names):
            continue
        ncoll += 1
        if not (comm.op == "comm" and comm.args[0] == "commk"):
            res.add("P09", "communicator of a collective", "viol", loc, "[%s] collective over %s, not over the communicator of the k-point distribution" % (sm, show(comm)))
            res.add("P10", "communicator of a collective", "viol", loc, "[%s] collective over %s, not over the communicator of the k-point distribution" % (sm, show(comm)))
            continue
        bad = rankdep(s, m, e.pc)
        res.check(not bad, "P09", "rank-uniform guard", loc, "[%s] a collective is guarded by a rank-dependent condition: %s" % (sm, show(bad[0], 0, 6)[:160] if bad else ""))
        inner = [loops[i] for i in e.loops if i in loops]
        kk = [l for l in inner if l.kind == "k"]
        res.check(not kk and not e.data["kdepth"], "P09", "not per local k-point", loc, "[%s] a collective is executed once per local k-point (loop at %s)" % (sm, kk[0].loc if kk else "?"))
        for l in inner:
            if l.kind != "k" and l.guard is not None and isinstance(l.guard, B):
                bad = rankdep(s, m, l.guard)
                res.check(not bad, "P09", "rank-uniform trip count", l.loc, "[%s] loop around a collective has a rank-dependent trip count: %s" % (sm, show(bad[0], 0, 6)[:160] if bad else ""))
    if ncoll == 0:
        raise AnalysisBroken("no collective over the k-point communicator found")
    res.notes.append("%d collectives" % ncoll)
    # scalar state agrees on all ranks: initially and inductively
    for n in range(nseeds):
        for which in (0, 1):
            w = m.world(6000 + n) if which == 0 else m.headworld(6000 + n, slope=-0.3, extra={p: n % 4 for p in m.iters})
            if w is None or len(w.ranks) < 2:
                continue
            for ph, v in m.phi.items():
                t = v[which]
                if isinstance(t, T) and m.kind(t) == "s" and ph is not m.cell["W"] or isinstance(t, B):
                    try:
                        vals = [w.b(t, {"R": r}) if isinstance(t, B) else w.ev(t, {"R": r}) for r in range(len(w.ranks))]
                    except (Undef, Undecided):
                        continue
                    ok = all(m.eqnum(complex(x).real, complex(vals[0]).real) for x in vals)
                    res.check(ok, "P10", "replicated scalar", wl, "[%s] %s differs between ranks" % (sm, v[2]))
                    res.check(ok, "P09", "replicated scalar", wl, "[%s] %s differs between ranks and later guards collectives" % (sm, v[2]))
            if which == 1:
                try:
                    vals = [w.b(m.l.back, {"R": r, "K": 0}) for r in range(len(w.ranks))]
                    res.check(len(set(vals)) == 1, "P09", "ranks stay in the same iteration", wl, "[%s] ranks can disagree on whether the iteration continues" % sm)
                except (Undef, Undecided):
                    pass
    # the same problem distributed differently: same values
    for n in range(nseeds):
        ref = None
        seed = 6500 + n
        for dist in (((0, 1, 2),), ((0,), (1, 2)), ((0, 2), (1,)), ((2,), (0,), (1,))):
            w = World(seed, nk=3, ranks=dist, nb=(2, 3, 2), npw=(4, 5, 4))
            w.ref = Ref(w, sm)
            cur = {}
            for ph, v in m.phi.items():
                try:
                    cur[ph] = m.value(w, v[0])
                except (Undef, Undecided):
                    pass
            if ref is None:
                ref = cur
                continue
            for ph in cur:
                if ph in ref:
                    res.check(m.eq(cur[ph], ref[ph]), "P10", "same initial state for every distribution", wl,
                              "[%s] %s depends on how k-points are distributed over ranks" % (sm, m.phi[ph][2]))
        ref = None
        for dist in (((0, 1, 2),), ((0,), (1, 2)), ((0, 2), (1,)), ((2,), (0,), (1,))):
            w = m.headworld(seed, slope=-0.3, extra={p: 1 + n % 3 for p in m.iters}, dist=dist)
            if w is None:
                break
            cur = {}
            for ph, v in m.phi.items():
                try:
                    cur[ph] = m.value(w, v[1])
                except (Undef, Undecided):
                    pass
            if ref is None:
                ref = cur
                continue
            for ph in cur:
                if ph in ref:
                    res.check(m.eq(cur[ph], ref[ph]) or (cur[ph] != cur[ph] and ref[ph] != ref[ph] if isinstance(cur[ph], float) else False), "P10", "same iteration for every distribution", wl,
                              "[%s] %s after an iteration depends on how k-points are distributed over ranks" % (sm, m.phi[ph][2]))


def find_eig(t):
    out = []
    for x in leaves(t):
        if x.op in ("eigvec", "eigval"):
            M = x.args[-1]
            if M not in out:
                out.append(M)
    return out


def kvals(m, w, a, dims):
    out = []
    for k in range(w.nk):
        env = {"K": k, "R": m.owner(w, k)}
        sh = [w.dim(d, k) for d in dims]
        if len(sh) == 1:
            out.append(np.array([w.arr(a, env, i) for i in range(sh[0])]))
        else:
            out.append(np.array([[w.arr(a, env, i, j) for j in range(sh[1])] for i in range(sh[0])], complex))
    return out


def tokterm(m, w, t):
    while t.op == "ite":
        t = t.args[1] if w.b(t.args[0], {"R": 0}) else t.args[2]
    return t


def eqnum(a, b):
    if isinstance(a, float) and isinstance(b, float) and (math.isnan(a) or math.isnan(b)):
        return math.isnan(a) and math.isnan(b)
    return close(a, b, 1e-6)


Main.eqnum = staticmethod(eqnum)


def run_solver(smear, tier="quick", seed=1):
    res = Res()
    s = Solver(smear)
    if s.dead:
        res.add("P04", "smearing accepted", "viol", "nlcg_us_cpu", "smearing %s never returns normally" % SMEAR[smear])
        return res, {}
    m = Main(s, res)
    m.slopes = []
    m.iters = []
    m.infer()
    wl = m.where
    res.check(m.initial_occupations, "P07", "initial occupations", wl,
              "[%s] occupations handed to the backend before the first iteration are not f((mu-e)/kT) for any carried eigenvalues" % m.smear)
    m.Fs = by_init(m, "s", lambda w, d: d["s", "F"])
    m.Ss = by_init(m, "s", lambda w, d: d["s", "kTS"])
    res.check(bool(m.Fs), "P13", "initial free energy", wl, "[%s] no free energy value equals E + kT*S of the initial evaluation" % m.smear)
    res.check(bool(m.Ss), "P13", "initial entropy", wl, "[%s] no entropy value equals kT*S of the initial evaluation" % m.smear)
    assign_roles(m, res)
    backedge(m, res, 160 if tier == "quick" else 1200, tier)
    returns(m, res, 48 if tier == "quick" else 240)
    trials(m, res, 2 if tier == "quick" else 10)
    ranks(m, res, 4 if tier == "quick" else 24)
    m.stats["returns"] = m.rstats
    import solver2
    solver2.extra(m, res, tier)
    import solver3
    solver3.extra(m, res, tier)
    return res, {"classes": len(m.classes), "phis": len(m.phi), "stats": m.stats, "eval_s": s.eval_s, "opaque": dict(s.I.opaque)}


def task(smear, tier, seed):
    return run_solver(smear, tier, seed)
