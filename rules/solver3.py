"""Obligations that follow a loop through several iterations: restart period, termination of searches, role of tau and kappa."""
import math

import numpy as np

from model import *
from term import atoms as BAT
from ri import World, Undecided, Undef, close, fv, hsym
from solver import *
import solver as SV


def direction(m, w):
    """(conjugated?, reset?) of one iteration in world w; None if not modelled or not a Fletcher-Reeves direction"""
    g = back_state(m, w)
    ek2, mu2 = g["ekv"], g["mu"]
    hd = w.head
    zx, ze = w.headv[m.zx[0]], w.headv[m.ze[0]]
    t = step_of(w, ek2, hd["nb", "ek"], ze)
    if not math.isfinite(t):
        return None
    ekr, U, X = w.ref.geodesic(hd["npw/nb", "C"], hd["nb/nb", "eta"], zx, ze, t, World.canon_eigh)
    H2 = [w_Hk(w, g["W"], k) @ g["C"][k] for k in range(w.nk)]
    st = {"C": g["C"], "H": H2, "ek": ek2, "mu": mu2, "bek": g["ek"], "fn": w.ref.fn(ek2, mu2)}
    G = w.ref.gradients(st)
    rx, re_, sl = w.ref.conj(G, zx, ze, U)
    zx2, ze2 = m.tryval(w, m.phi[m.zx[0]][1]), m.tryval(w, m.phi[m.ze[0]][1])
    if zx2 is None or ze2 is None:
        return None
    den = sum(np.vdot(a, a).real for a in rx) + sum(np.vdot(a, a).real for a in re_)
    gam = ((sum(np.vdot(a, b - c) for a, b, c in zip(rx, zx2, G["dx"])) + sum(np.vdot(a, b - c) for a, b, c in zip(re_, ze2, G["de"]))) / den).real
    scale = abs(G["fr"] / (w.headv[m.frs[0]] if m.frs and m.frs[0] in w.headv else 1.0))
    return abs(gam) > 1e-9 * (1 + scale), abs(t) < 1e-12


def restarts(m, res, tier):
    """follow counters and flags through consecutive iterations; no restart period may pass without a pure descent direction"""
    ctl = [p for p, (i, n, k) in m.phi.items() if m.kind(i) == "b" or m.intphi(p)]
    wl, sm = m.where, m.smear
    for R in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)):
        w0 = m.world(41, {"restart": R, "maxiter": 50})
        cur = {}
        for p in ctl:
            v = m.tryval(w0, m.phi[p][0])
            if v is not None:
                cur[p] = v if isinstance(v, bool) else int(np.real(v))
        run = 0
        hist = "S"
        for step in range(2 * R + 2):
            pick = None
            ns = 0
            for a in range(48):
                w = m.headworld(70000 + 1000 * R + 50 * step + a, scal=dict({"T": 4e4 + 1e5 * abs(hsym(a, "T")), "tau": 0.5} if a % 2 else {}, restart=R, maxiter=50), slope=-0.05 - 0.02 * a, extra=cur)
                if w is None:
                    continue
                try:
                    d = direction(m, w)
                except (Undef, Undecided, np.linalg.LinAlgError):
                    d = None
                if d is None or d[1]:
                    continue
                nxt = {}
                for p in cur:
                    v = m.tryval(w, m.phi[p][1])
                    if v is not None:
                        nxt[p] = v if isinstance(v, bool) else int(np.real(v))
                if pick is None or (d[0] and not pick[0]):
                    pick = (d[0], nxt)
                ns += 1
                if d[0] or ns >= 5:
                    break
            if pick is None:
                break
            run = run + 1 if pick[0] else 0
            hist += "C" if pick[0] else "S"
            cur = {**cur, **pick[1]}
            for q in ("P21", "P04"):
                res.check(run < R, q, "steepest descent once per restart period", wl,
                          "[%s] restart period %d: the directions from the start on are %s (S descent, C conjugate), %d conjugate ones in a row" % (sm, R, hist, run))
        if len(hist) == 1:
            for q in ("P21", "P04"):
                res.add(q, "steepest descent once per restart period", "und", wl, "no accepted iteration found")


# ------------------------------------------------------------------------------------------------ termination
class Num(Exception):
    pass


def nev(t, cur, scal, adv, memo):
    """arithmetic value of a term; everything that is not arithmetic is a constant chosen by adv"""
    r = memo.get(t)
    if r is not None:
        return r
    r = _nev(t, cur, scal, adv, memo)
    if isinstance(r, complex):
        r = r.real
    memo[t] = r
    return r


def _nev(t, cur, scal, adv, memo):
    if t in cur:
        return cur[t]
    o = t.op
    if o == "num":
        return float(t.args[0])
    if o == "undef":
        raise Num("undef")
    if o == "sym":
        return scal.get(t.args[0], adv(t))
    f = lambda x: nev(x, cur, scal, adv, memo)
    try:
        if o == "ite":
            return f(t.args[1] if nb(t.args[0], cur, scal, adv, memo) else t.args[2])
        if o == "add":
            return sum(f(x) for x in t.args)
        if o == "mul":
            r = 1.0
            for x in t.args:
                r *= f(x)
            return r
        if o == "neg":
            return -f(t.args[0])
        if o == "div":
            a, b = f(t.args[0]), f(t.args[1])
            if b == 0:
                return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            return a / b
        if o in ("abs", "fabs"):
            return abs(f(t.args[0]))
        if o == "sqrt":
            a = f(t.args[0])
            return math.sqrt(a) if a >= 0 else math.nan
        if o == "pow":
            return f(t.args[0]) ** f(t.args[1])
        if o == "imod":
            return math.fmod(f(t.args[0]), f(t.args[1]))
        if o in ("max", "min", "fmax", "fmin"):
            return (max if "max" in o else min)(f(x) for x in t.args)
        if o in ("real", "toflt", "toint"):
            return f(t.args[0])
        if o == "phi":
            return adv(t)
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return math.nan
    return adv(t)


def nb(b, cur, scal, adv, memo):
    while b.lo is not None:
        b = b.hi if natom(BAT[b.v], cur, scal, adv, memo) else b.lo
    return b is TRUE


def natom(a, cur, scal, adv, memo):
    if a in cur:
        return bool(cur[a])
    if a.op in ("flt", "ilt", "fle", "feq", "ieq"):
        x, y = (nev(z, cur, scal, adv, memo) for z in a.args[:2])
        return x < y if a.op[1:] == "lt" else x <= y if a.op[1:] == "le" else x == y
    return nev(a, cur, scal, adv, memo) > 0


def status_atom(a):
    return contains_op(a, "status") or contains_op(a, "throws")


ARI = {"ite", "add", "mul", "neg", "div", "abs", "fabs", "sqrt", "pow", "imod", "max", "min", "fmax", "fmin", "real", "toflt", "toint"}


def owned(a, cur, own):
    """does the comparison depend arithmetically on the loop's own numbers, plain parameters or the host energy"""
    r = own.get(a)
    if r is None:
        r = a in cur
        other = False
        st, seen = list(x for x in a.args if isinstance(x, (T, B))), set()
        while st and not r:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if isinstance(x, B):
                continue
            if x in cur or x.op == "etot":
                r = True
            elif x.op in ARI:
                st.extend(y for y in x.args if isinstance(y, T))
            elif x.op not in ("num", "sym", "phi"):
                other = True
        r = own[a] = r or (not other and not status_atom(a))
    return r


def goes_on(g, cur, scal, adv, memo, own, seen=None):
    """can the back edge be taken for some outcome of the comparisons that are not the loop's own"""
    seen = set() if seen is None else seen
    st = [g]
    while st:
        g = st.pop()
        if g in seen:
            continue
        seen.add(g)
        if g.lo is None:
            if g is TRUE:
                return True
            continue
        a = BAT[g.v]
        if owned(a, cur, own):
            st.append(g.hi if natom(a, cur, scal, adv, memo) else g.lo)
        else:
            st += [g.hi, g.lo]
    return False


def loops_end(m, res, tier):
    """every data-dependent loop ends whatever constant values the host and the reductions keep returning"""
    s, sm = m.s, m.smear
    cap = 30000
    comp = {}
    for e in s.I.events:
        if e.kind == "compute":
            for i in e.loops:
                comp[i] = comp.get(i, 0) + 1
    seen = set()
    n = 0
    for l in s.I.loops:
        if l.kind != "while" or l.id == m.l.id:
            continue
        n += 1
        sc = [(ph, i, nx, k) for (ph, i, nx, k) in l.phis if (isinstance(i, T) and isinstance(nx, T) and not tokish(i)) or isinstance(i, B)]
        own = {}
        for tau in (0.1, 0.5, 0.99, 1.0, 1.5, 0.0, -0.5, math.nan):
            for en in (-1e6, 1e6, math.nan, 0.0):
                for sd in (1, 2):
                    key = (l.loc, l.id in comp, tau, en, sd)
                    if key in seen:
                        continue
                    seen.add(key)
                    scal = {"tau": tau, "T": 300.0, "tol": 1e-9, "kappa": 0.3, "maxiter": 10.0, "restart": 3.0, "nel": 1e4, "occ": 2.0}

                    def adv(t, en=en, sd=sd):
                        if t in m.slopes:
                            return -0.5
                        if t.op == "etot":
                            return en
                        return hsym(sd, "adv", t.op, str(t.args[0])[:20] if t.args and isinstance(t.args[0], str) else "")
                    pc = l.pc
                    asg = {}
                    memo = {}
                    for a in bsupport(pc):
                        lv = [x for x in leaves_of(a)]
                        if lv and all(x.op == "sym" and x.args[0] in ("tau", "T", "tol", "kappa", "maxiter", "restart") for x in lv) and not contains_op(a, "status"):
                            try:
                                asg[a] = natom(a, {}, scal, adv, memo)
                            except Num:
                                pass
                    if brestrict(pc, asg) is FALSE:
                        res.add("P18", "search loops end", "ok")
                        continue
                    cur = {}
                    for (ph, i, nx, k) in sc:
                        try:
                            cur[ph] = nb(i, {}, scal, adv, {}) if isinstance(i, B) else nev(i, {}, scal, adv, {})
                        except Num:
                            cur[ph] = 0.1234
                    hist = set()
                    over = None
                    cap_l = cap if l.id not in comp else 3000
                    for it in range(cap_l + 1):
                        if it == cap_l:
                            over = "is not over after %d rounds" % cap_l
                            break
                        memo = {}
                        asg = {}
                        g = l.back
                        # conditions on anything but the loop's own numbers and the host energy: whatever continues the loop
                        try:
                            if not goes_on(g, cur, scal, adv, memo, own):
                                break
                            nx_ = {}
                            for (ph, i, nx, k) in sc:
                                nx_[ph] = nb(nx, cur, scal, adv, memo) if isinstance(nx, B) else nev(nx, cur, scal, adv, memo)
                        except Num:
                            break
                        st = tuple(sorted((p.id, repr(v)) for p, v in nx_.items()))
                        if st in hist:
                            over = "repeats the same state"
                            break
                        hist.add(st)
                        cur.update(nx_)
                    res.check(over is None, "P18", "search loops end", l.loc, "[%s] loop in %s %s (tau=%g, host energy constantly %g): the solver does not terminate" % (
                        sm, s.p.sn[l.fn].split("::")[-1] if isinstance(l.fn, int) else l.fn, over, tau, en))
    res.notes.append("%d search loops" % n)
    # the outer iteration is counted
    for p in m.iters:
        res.add("P18", "iterations are counted", "ok")
    if not m.iters:
        res.add("P18", "iterations are counted", "viol", m.where, "[%s] no iteration counter advances by one in every iteration" % sm)


def tokish(t):
    while t.op == "ite":
        t = t.args[1]
    return t.op == "W" or (t.op == "phi" and str(t.args[1]).startswith("world:")) or (t.op == "sym" and t.args[0] == "W0")


# ------------------------------------------------------------------------------------------------ roles of tau and kappa
def backtracking(m, res):
    """in one of the inner search loops consecutive trial steps shrink by the factor tau"""
    s, sm, wl = m.s, m.smear, m.where
    inner = [l for l in s.I.loops if l.kind == "while" and l.id != m.l.id]
    evs = [e for e in s.I.events if e.kind == "compute" and e.loops and e.loops[0] == m.l.id and len(e.loops) > 1]
    found = None
    und = None
    for l in inner:
        ce = [e for e in evs if l.id in e.loops]
        if not ce:
            continue
        ratios = []
        for tau in (0.37, 0.62):
            w = m.headworld(5200, scal={"tau": tau, "T": 2e4}, slope=-0.3, need_back=False, extra={p: 1 for p in m.iters})
            w.etot_hook = lambda w_, tok: 1e4 if tok.op == "W" else None
            w.feasible(TRUE, {"R": 0, "K": 0}, free_atom, w.rng)
            cur = {}
            for (ph, i, nx, k) in l.phis:
                if isinstance(i, T) and not tokish(i):
                    try:
                        cur[ph] = w.ev(i, {"R": 0})
                    except (Undef, Undecided):
                        pass
            ts = []
            try:
                for it in range(3):
                    for ph, v in cur.items():
                        w.over[ph] = v
                    w.memo.clear()
                    ts.append(stepval(m, w, ce[0].data[0]))
                    nxt = {}
                    for (ph, i, nx, k) in l.phis:
                        if ph in cur:
                            try:
                                nxt[ph] = w.ev(nx, {"R": 0})
                            except (Undef, Undecided):
                                pass
                    cur = nxt
            except (Undef, Undecided) as e:
                und = str(e)
                ts = []
            if len(ts) == 3 and all(t is not None and t for t in ts):
                ratios.append((tau, ts[1] / ts[0], ts[2] / ts[1]))
        if len(ratios) == 2 and all(close(r1, tau, 1e-6) and close(r2, tau, 1e-6) for (tau, r1, r2) in ratios):
            found = l
    if found is not None:
        res.add("P04", "tau is the backtracking factor", "ok")
        res.add("P18", "backtracking shrinks by tau", "ok")
    elif und is not None:
        res.add("P04", "tau is the backtracking factor", "und", wl, und)
    else:
        res.add("P04", "tau is the backtracking factor", "viol", wl, "[%s] no search loop shrinks its trial step by the factor tau from one trial to the next" % sm)
        res.add("P18", "backtracking shrinks by tau", "viol", wl, "[%s] no search loop shrinks its trial step by the factor tau from one trial to the next" % sm)


def stepval(m, w, tok):
    hd, ze = w.head, w.headv[m.ze[0]]
    for mt in find_eig(tok):
        M = kvals(m, w, mt, ("nb", "nb"))
        num_ = sum(np.vdot(z, a - b) for z, a, b in zip(ze, M, hd["nb/nb", "eta"]))
        t = (num_ / sum(np.vdot(z, z).real for z in ze)).real
        if lsame(M, [a + t * z for a, z in zip(hd["nb/nb", "eta"], ze)], 1e-5):
            return t
    return None


def kappa_role(m, res):
    """the initial eta direction is proportional to kappa and to no other number"""
    sm, wl = m.smear, m.where
    init = m.phi[m.ze[0]][0]
    base = {"kappa": 0.21, "tau": 0.4, "tol": 1e-4, "maxiter": 11, "restart": 3}
    v0 = m.tryval(m.world(43, base), init)
    if v0 is None:
        res.add("P04", "kappa scales the eta direction", "und", wl, "initial eta direction not modelled")
        return
    for ch, f in (({"kappa": 0.84}, 4.0), ({"tau": 0.8}, 1.0), ({"tol": 3e-2}, 1.0), ({"maxiter": 5}, 1.0), ({"restart": 9}, 1.0)):
        v = m.tryval(m.world(43, dict(base, **ch)), init)
        ok = v is not None and lsame(v, [f * x for x in v0])
        res.check(ok, "P04", "kappa scales the eta direction", wl, "[%s] the pseudo-Hamiltonian direction does not scale with kappa alone (changing %s)" % (sm, next(iter(ch))))


MIR04 = {("P07", "initial occupations"): "occupations use the given smearing and temperature", ("P07", "occupations"): "accepted occupations use the given smearing and temperature",
         ("P01", "convergence claim"): "tol decides convergence", ("P01", "convergence noticed"): "tol ends the run",
         ("P18", "iteration ends"): "iteration limit is honoured", ("P13", "initial entropy"): "entropy uses the given smearing and temperature"}


def extra(m, res, tier):
    restarts(m, res, tier)
    loops_end(m, res, tier)
    backtracking(m, res)
    kappa_role(m, res)
    for k, r in MIR04.items():
        d = res.o.get(k)
        if d:
            e = res.o.setdefault(("P04", r), {"ok": 0, "viol": [], "und": []})
            e["ok"] += d["ok"]
            e["viol"] += d["viol"]
            e["und"] += d["und"]
