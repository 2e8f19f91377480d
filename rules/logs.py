"""What the log and the step file contain, and which rank writes them (P17, P22): the solver is evaluated with its logging code included,
files, string streams and json documents being modelled."""
import re

import numpy as np

from model import *
from iomodel import LogPrims
from ri import Undecided, Undef, World
from solver import Res, Main, SMEAR, assign_roles, by_init, back_state, free_atom, tokterm, lsame, contains_op
from term import *

JSON = [("F", "F", "free energy"), ("EKS", "E", "total energy"), ("entropy", "kTS", "entropy term"), ("slope_x", "slope", "slope"),
        ("fermi_energy", "mu", "chemical potential"), ("step", "it", "iteration number")]
TEXT = [(r"^\s*kT \* S\s*:?\s*$", "kTS", "entropy term"), (r"^\s*Fermi energy\s*:?\s*$", "mu", "chemical potential"), (r"^\s*KS.energy\s*:?\s*$", "E", "total energy"),
        (r"^\s*F\s*:?\s*$", "F", "free energy"), (r"^\s*Free energy\s*:?\s*$", "F", "free energy")]
PARAM = ["T", "maxiter", "tol", "kappa", "tau", "restart"]
NAMES = {"FERMI_DIRAC": ("fermi",), "COLD": ("cold", "marzari"), "GAUSS": ("gauss",), "METHFESSEL_PAXTON": ("methfessel",), "GAUSSIAN_SPLINE": ("spline",)}


def rankatoms(b):
    return [a for a in bsupport(b) if contains_op(a, "commrank")]


def forbidden_elsewhere(pc):
    """None if pc excludes every rank but the first; otherwise a rank that satisfies it"""
    ats = rankatoms(pc)
    for r in (1, 2, 5):
        q = pc
        for a in ats:
            try:
                w = World(1, nk=1, ranks=((0,),), nb=(1,), npw=(1,))
                for x in subterms(a):
                    if x.op == "commrank":
                        w.over[x] = r
                        w.memo = {}
                v = evalatom(w, a, r)
            except (Undecided, Undef):
                continue
            q = brestrict(q, {a: v}) if v is not None else q
        if q is not FALSE:
            return r
    return None


def subterms(t):
    from ri import _kids
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(y for y in _kids(x) if isinstance(y, T))


def evalatom(w, a, r):
    """truth of an atom that depends on the rank and constants only, at rank r"""
    m = {x: num(r) for x in subterms(a) if x.op == "commrank"}
    b = subst(a, m)
    if b is TRUE or b is FALSE:
        return b is TRUE
    if isinstance(b, T):
        if b.op in ("ieq", "feq") and isnum(b.args[0]) and isnum(b.args[1]):
            return b.args[0].args[0] == b.args[1].args[0]
        if b.op in ("ilt", "flt") and isnum(b.args[0]) and isnum(b.args[1]):
            return b.args[0].args[0] < b.args[1].args[0]
        if b.op == "fle" and isnum(b.args[0]) and isnum(b.args[1]):
            return b.args[0].args[0] <= b.args[1].args[0]
    return None


def isfile(e):
    return (e.kind == "write") or (e.kind == "io" and e.data and e.data[0] == "open")


def first_rank_only(s, res):
    n = 0
    for e in s.I.events:
        if not isfile(e):
            continue
        n += 1
        r = forbidden_elsewhere(e.pc)
        what = "opened" if e.kind == "io" else "written"
        res.check(r is None, "P17", "files are %s by the first rank only" % what, s.where(e), "a file is %s on rank %s, too" % (what, r))
    if not n:
        res.add("P17", "files are opened by the first rank only", "und", "src/nlcglib.cpp", "no file access found")
    ops = [e for e in s.I.events if e.kind == "io" and e.data[0] == "open"]
    res.notes.append("%d file accesses, %d opens" % (n, len(ops)))
    main = s.mainloop()
    for e in ops:
        mode = e.data[2] if len(e.data) > 2 else None
        if main is None or main.id not in e.loops or not (isinstance(mode, T) and isnum(mode)):
            continue
        res.check(int(mode.args[0]) & 1 == 1, "P22", "step records are appended", s.where(e), "the step log is opened in an iteration without appending: the records of earlier iterations are lost")
    # what the file contents need is collected on all ranks
    k = 0
    for e in s.I.events:
        if e.kind != "coll" or not e.pc:
            continue
        c = e.data["comm"]
        if c.op == "comm" and str(c.args[0]) in ("commg", "ompi_mpi_comm_self"):
            continue
        k += 1
        bad = rankatoms(e.pc)
        # a guard that merely repeats under the status of the rank query is not a rank dependence
        bad = [a for a in bad if not contains_op(a, "status")]
        res.check(not bad, "P17", "gathers for the log run on all ranks", s.where(e), "a collective operation is executed by some ranks only: it is guarded by %s" % (show(bad[0], 0, 5)[:120] if bad else ""))


def ref(m, w, which):
    if which == "head":
        d = w.head
        out = {k: d["s", k] for k in ("F", "kTS", "mu", "E")}
        out["slope"] = w.headv[m.slopes[0]]
        out["it"] = w.headv[m.iters[0]] if m.iters else None
        out["ek"], out["fn"] = d["nb", "ek"], d["nb", "fn"]
        return out
    g = back_state(m, w)
    out = {"kTS": w.ref.kTS(g["ekv"], g["mu"]), "mu": g["mu"], "E": w.ev(mk("etot", tokterm(m, w, m.phi[m.cell["W"]][1])), {"R": 0}), "ek": g["ekv"], "fn": g["fn"]}
    out["F"] = out["E"] + out["kTS"]
    out["slope"] = m.tryval(w, m.phi[m.slopes[0]][1])
    out["it"] = w.headv[m.iters[0]] if m.iters else None
    return out


def isval(x):
    return isinstance(x, T) and x.op not in ("str", "strcat", "strof", "manip", "tostr", "undef")


def strs(x):
    """text of a constant string term"""
    if x.op == "str":
        return str(x.args[0])
    if x.op == "strcat":
        return strs(x.args[0]) + strs(x.args[1])
    if x.op == "tostr":
        return "#"
    return "" if x.op in ("strof", "manip") else None


def pieces(x):
    if x.op == "strcat":
        return pieces(x.args[0]) + pieces(x.args[1])
    return [x]


def rows(s):
    """text output as rows: (text before the value, value, event)"""
    by = {}
    for e in s.I.events:
        if e.kind == "write" and isinstance(e.data["value"], T):
            by.setdefault(("file", e.loops), []).append((e, e.data["value"]))
        elif e.kind == "stream" and isinstance(e.data[1], T):
            by.setdefault(("stdout", e.loops), []).append((e, e.data[1]))
    for key, l in by.items():
        label, row, first = "", [], None
        for e, v in l:
            for x in pieces(v):
                t = strs(x) if not isval(x) else None
                if t is not None:
                    while "\n" in t:
                        a, t = t.split("\n", 1)
                        label += a
                        if row or label.strip():
                            yield key, row, label, e
                        label, row = "", []
                    label += t
                elif isval(x):
                    row.append((label, x, e))
                    label = ""
        if row or label.strip():
            yield key, row, label, l[-1][0]


def num_of(m, w, t):
    return float(np.real(m.value(w, t)))


def logged(m, res, nseeds):
    s = m.s
    main = m.l.id
    evs = [e for e in s.I.events if e.kind == "write" and isinstance(e.data["value"], Map) and main in e.loops]
    jadd = [e for e in s.I.events if e.kind == "jadd" and main in e.loops]
    text = [(key, row, tail, e) for key, row, tail, e in rows(s) if main in key[1]]
    wl = m.where
    seen = 0
    for n in range(nseeds):
        it = (0, 10, 3, 20, 1)[n % 5]
        tol = 1e-3
        slope = -0.3 if n % 2 else 0.4 * tol
        ex = {p: it for p in m.iters}
        w = m.headworld(7100 + n, scal={"tol": tol, "maxiter": 50}, slope=slope, need_back=False, extra=ex, consistent=True)
        if w is None:
            continue
        try:
            refs = [ref(m, w, "head")]
        except (Undecided, Undef) as e:
            res.add("P22", "reference state", "und", wl, str(e))
            continue
        nxt = []

        def match(vals):
            """labels that do not fit any one state"""
            bad = [k for k, (v, key) in vals.items() if not m.eqnum(v, float(refs[0][key]))]
            if bad and not nxt:
                try:
                    nxt.append(ref(m, w, "next"))
                except (Undecided, Undef, AttributeError, KeyError, TypeError):
                    nxt.append(None)
            if bad and nxt[0] is not None:
                b2 = [k for k, (v, key) in vals.items() if nxt[0][key] is None or not m.eqnum(v, float(np.real(nxt[0][key])))]
                if not b2:
                    return []
            return bad
        nfeas = 0
        for e in evs:
            try:
                if not w.feasible(e.pc, {"R": 0, "K": 0}, free_atom, w.rng):
                    continue
            except Undecided:
                continue
            nfeas += 1
            seen += 1
            d = {}
            for k, v in e.data["value"].s.items():
                t = strs(k) if isinstance(k, T) else None
                if t is not None:
                    d[t] = v
            vals = {}
            for lab, key, what in JSON:
                if lab not in d:
                    continue
                try:
                    vals[lab] = (num_of(m, w, d[lab]), key)
                except Undef:
                    res.add("P22", "step log: " + what, "viol", s.where(e), "[%s] the step log entry '%s' can be uninitialised" % (m.smear, lab))
                except (Undecided, TypeError, AttributeError) as x:
                    res.add("P22", "step log: " + what, "und", s.where(e), str(x))
            bad = match(vals)
            for lab, key, what in JSON:
                if lab in vals:
                    res.check(lab not in bad, "P22", "step log: " + what, wl, "[%s] the step log entry '%s' is not the %s of the iteration's state" % (m.smear, lab, what))
        # one record per iteration and path
        if evs:
            res.check(nfeas <= 1, "P22", "one step record per iteration", wl, "[%s] an iteration writes %d step records" % (m.smear, nfeas))
        for e in jadd:
            try:
                if not w.feasible(e.pc, {"R": 0, "K": 0}, free_atom, w.rng):
                    continue
            except Undecided:
                continue
            name = None
            p = e.data[0]
            if isinstance(p, Ptr) and p.path and isinstance(p.path[-1], tuple) and isinstance(p.path[-1][1], T):
                name = strs(p.path[-1][1])
            ent = e.data[1]
            if name not in ("eta", "fn") or not isinstance(ent, Map):
                continue
            what = "eigenvalues" if name == "eta" else "occupations"
            key = "ek" if name == "eta" else "fn"
            f = {strs(k): v for k, v in ent.s.items()}
            try:
                okl = True
                for k in range(w.nk):
                    env = {"K": k, "R": m.owner(w, k)}
                    okl = okl and w.re(f["ik"], env) == w.re(mk("kf", K), env) and w.re(f["ispn"], env) == w.re(mk("ks", K), env)
                res.check(okl, "P22", "step log: %s carry their label" % what, s.where(e), "[%s] the entry of the step log does not carry the k-point and spin of its values" % m.smear)
                v = f["value"]
                if not (isinstance(v, Vec) and isinstance(v.body, T)):
                    raise Undecided("logged array")
                got = []
                for k in range(w.nk):
                    env = {"K": k, "R": m.owner(w, k)}
                    got.append(np.array([w.ev(v.body, dict(env, ix0=i)) for i in range(int(w.re(v.n, env)))]))
                ok = lsame(got, refs[0][key], 1e-6)
                if not ok:
                    match({"x": (1.0, "F")})
                    ok = bool(nxt and nxt[0] is not None and lsame(got, nxt[0][key], 1e-6))
                res.check(ok, "P22", "step log: %s" % what, s.where(e), "[%s] the step log entry '%s' does not hold the %s of the iteration's state" % (m.smear, name, what))
                ls = [l for l in s.I.loops if l.id in e.loops and l.kind == "k"]
                if ls and ls[-1].dom is not None:
                    res.check(ls[-1].dom is mk("gdom"), "P22", "step log: %s of all k-points" % what, s.where(e), "[%s] the step log entry '%s' covers the k-points of one rank only" % (m.smear, name))
            except (Undecided, Undef, KeyError, TypeError, AttributeError) as x:
                res.add("P22", "step log: %s" % what, "und", s.where(e), "%s: %s" % (type(x).__name__, x))
        for key_, row, tail, e0 in text:
            if not row:
                continue
            try:
                if not w.feasible(row[0][2].pc, {"R": 0, "K": 0}, free_atom, w.rng):
                    continue
            except Undecided:
                continue
            vals = {}
            loc = s.where(row[0][2])
            try:
                for lab, x, e in row:
                    for rx, k, what in TEXT:
                        if re.match(rx, lab):
                            vals[what] = (num_of(m, w, x), k)
                if not vals and row[0][0].strip() == "" and len(row) >= 3 and all(not l.strip() for l, x, e in row):
                    # the iteration line: number, free energy, residual(s)
                    vs = [num_of(m, w, x) for l, x, e in row]
                    vals = {"iteration number": (vs[0], "it"), "free energy": (vs[1], "F"), "residual": (sum(vs[2:4]), "slope")}
            except Undef:
                res.add("P22", "log text", "viol", loc, "[%s] an uninitialised value is printed" % m.smear)
                continue
            except (Undecided, TypeError, AttributeError) as x:
                continue
            if not vals:
                continue
            bad = match(vals)
            for what in vals:
                res.check(what not in bad, "P22", "log text: " + what, wl, "[%s] the value printed as %s is not the one of the iteration's state" % (m.smear, what))
    if evs and not seen:
        res.add("P22", "step log", "und", wl, "no path to the step log was feasible")


def params(s, res, smear):
    """the parameter block before the first iteration"""
    w = World(5, nk=2, ranks=((0,), (1,)), nb=(2, 2), npw=(3, 3))
    for key, row, tail, e0 in rows(s):
        if key[1]:
            continue
        if row:
            for lab, x, e in row:
                name = lab.replace(":", "").replace("=", "").strip()
                if name in PARAM:
                    try:
                        ok = w.ev(x, {"R": 0}) == w.ev(S(name), {"R": 0})
                    except (Undecided, Undef):
                        continue
                    res.check(ok, "P22", "logged parameter " + name, s.where(e), "the value logged as %s is not the parameter %s" % (name, name))
        elif ":" in tail and tail.split(":")[0].strip() == "smearing":
            got = tail.split(":", 1)[1].strip().lower()
            want = NAMES.get(SMEAR[smear])
            others = {x for k, v in NAMES.items() if k != SMEAR[smear] for x in v}
            if want is None:
                continue
            ok = any(x in got for x in want) and not any(x in got for x in others if x not in want and not any(x in y for y in want) and x != "gauss")
            if SMEAR[smear] == "GAUSS":
                ok = "gauss" in got and "spline" not in got
            res.check(ok, "P22", "logged smearing kind", s.where(e0), "smearing %s is logged as '%s'" % (SMEAR[smear], got))


def task(smear, tier, seed):
    res = Res()
    s = Solver(smear, prims=LogPrims, logging=True)
    if s.dead:
        return res, {}
    first_rank_only(s, res)
    params(s, res, smear)
    m = Main(s, res)
    m.slopes, m.iters = [], []
    tmp = Res()
    m.res = tmp
    m.infer()
    m.Fs = by_init(m, "s", lambda w, d: d["s", "F"])
    m.Ss = by_init(m, "s", lambda w, d: d["s", "kTS"])
    assign_roles(m, tmp)
    logged(m, res, 10 if tier == "quick" else 80)
    return res, {"writes": sum(1 for e in s.I.events if e.kind == "write"), "opaque": dict(s.I.opaque)}
