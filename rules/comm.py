"""Communication wrappers: datatypes, operations, counts (P16) and label-preserving gathers (P24, P10), from the value graph of every
instantiation of the wrappers."""
from model import *
from conc import CInterp, CPrims, together, NextCollective, Mismatch, OutOfRange, keyof
from ri import Undecided
from solver import Res

SRC = "witness/comm.cpp"
BASIC = {"double": ("ompi_mpi_double", 8), "int": ("ompi_mpi_int", 4), "char": ("ompi_mpi_char", 1), "cplx": ("ompi_mpi_c_double_complex", 16)}
EQUIV = {"ompi_mpi_c_double_complex": "cplx", "ompi_mpi_cxx_dblcplex": "cplx", "ompi_mpi_dblcplex": "cplx", "ompi_mpi_cxx_double_complex": "cplx", "ompi_mpi_double": "double", "ompi_mpi_int": "int", "ompi_mpi_int32_t": "int",
         "ompi_mpi_integer": "int", "ompi_mpi_char": "char", "ompi_mpi_dblprec": "double", "ompi_mpi_c_complex": "fcplx", "ompi_mpi_float": "float", "ompi_mpi_long": "long"}
SIZE = {"double": (8, 8), "int": (4, 4), "char": (1, 1), "cplx": (16, 8), "fcplx": (8, 4), "float": (4, 4), "long": (8, 8)}
OPS = {"ompi_mpi_op_sum": "sum", "ompi_mpi_op_max": "max", "ompi_mpi_op_min": "min", "ompi_mpi_op_prod": "prod", "ompi_mpi_op_land": "land"}
TYPES = {"t_double": "double", "t_cplx": "cplx", "t_kcplx": "cplx", "t_char": "char", "t_int": "int", "t_key": ("int", "int"),
         "t_keydouble": (("int", "int"), "double"), "t_keyint": (("int", "int"), "int"), "t_keycplx": (("int", "int"), "cplx"),
         "t_intdouble": ("int", "double"), "t_doubleint": ("double", "int"), "t_charint": ("char", "int")}


def sizeal(t):
    if isinstance(t, str):
        return SIZE[t]
    (s1, a1), (s2, a2) = sizeal(t[0]), sizeal(t[1])
    o = (s1 + a2 - 1) // a2 * a2
    al = max(a1, a2)
    return ((o + s2 + al - 1) // al * al, al)


def layout(t, off=0):
    """scalars of a C++ value and their offsets"""
    if isinstance(t, str):
        return [(off, t)]
    s1, (s2, a2) = sizeal(t[0])[0], sizeal(t[1])
    return layout(t[0], off) + layout(t[1], off + (s1 + a2 - 1) // a2 * a2)


def mpilayout(t, off=0):
    """scalars of an MPI datatype, its extent and alignment"""
    if t.op == "comm":
        n = EQUIV.get(str(t.args[0]))
        if n is None:
            raise Undecided("datatype %r" % (t,))
        return [(off, n)], SIZE[n][0], SIZE[n][1]
    if t.op == "mpiresized":
        l, e, a = mpilayout(t.args[0], off)
        if not isnum(t.args[2]):
            raise Undecided("extent")
        return l, int(t.args[2].args[0]), 1
    if t.op == "mpicontig":
        n = int(t.args[0].args[0])
        out, e, a = [], 0, 1
        for i in range(n):
            l, e, a = mpilayout(t.args[1], off + i * e)
            out += l
        return out, n * e, a
    if t.op == "mpistruct":
        n = int(t.args[0].args[0])
        bl, dp, ty = t.args[1:4]
        if not (len(bl) >= n and len(dp) >= n and len(ty) >= n) or not all(isnum(x) for x in list(bl[:n]) + list(dp[:n])):
            raise Undecided("datatype description")
        out, ub, al = [], 0, 1
        for i in range(n):
            o = int(dp[i].args[0])
            for j in range(int(bl[i].args[0])):
                l, e, a = mpilayout(ty[i], off + o)
                out += l
                o += e
                al = max(al, a)
                ub = max(ub, o)
        return out, (ub + al - 1) // al * al, al
    raise Undecided("datatype %r" % (t,))


def interp(p, comms, known=()):
    pr = CPrims(p, comms, known)
    I = CInterp(p, pr)
    sinks(I, p)
    return I, pr


def wfid(p, name):
    fid = p.find("witness::" + name)
    if len(fid) != 1:
        raise AnalysisBroken("witness %s not found" % name)
    return fid[0]


def gone(p, res, pid, w):
    """a call this tree does not offer (any more)"""
    if len(p.find("witness::" + w)) == 1:
        return False
    res.add(pid, "call %s" % w, "und", SRC, "this tree does not offer the call analysed by witness %s" % w)
    return True


def commval(I, p, name):
    c = p.byname_cls("nlcglib::Communicator") if hasattr(p, "byname_cls") else None
    cell = I.alloc(Opq(mk("comm", name)), name)
    return Rec(c, {"mpicomm_": Ptr(cell)})


def types(p, res):
    for w, t in TYPES.items():
        if gone(p, res, "P16", w):
            continue
        I, pr = interp(p, {"k": (3, 1)})
        cpp = w[2:]
        try:
            v = I.call(wfid(p, w), [], None, None)
            v = pr.comm(I, v)
            lay, ext, _ = mpilayout(v)
            loc = next((I.p.loc(e.loc) if isinstance(e.loc, int) else e.loc for e in I.events if e.kind == "mpitype"), "src/mpi/mpi_type.hpp")
            want, size = layout(t), sizeal(t)[0]
            res.check(sorted(lay) == sorted(want) and ext == size, "P16", "datatype of %s" % str(t).replace("'", ""), loc,
                      "the MPI datatype of %s describes %s with extent %d, the C++ type is %s with size %d" % (str(t).replace("'", ""), sorted(lay), ext, want, size))
            com = [e for e in I.events if e.kind == "mpicommit"]
            if v.op != "comm":
                res.check(any(pr.comm(I, e.data[0]) is v or e.data[0] is v for e in com), "P16", "derived datatypes are committed", loc,
                          "the datatype of %s is used without being committed" % cpp)
        except (Undecided, AttributeError, TypeError, ValueError, KeyError) as e:
            res.add("P16", "datatype of %s" % cpp, "und", "src/mpi/mpi_type.hpp", "%s: %s" % (type(e).__name__, e))


def opname(t):
    return OPS.get(str(t.args[0])) if t.op == "comm" else None


def enumval(p, name):
    for e in getattr(p, "E", {}).values() if hasattr(p, "E") else ():
        if name in e:
            return e[name]
    return None


def reductions(p, res):
    for w, t in (("r_double", "double"), ("r_int", "int"), ("r_double_const", "double")):
        if gone(p, res, "P16", w):
            continue
        for opn, opv in (("sum", 0), ("max", 1), ("min", 2), ("unknown", 7)):
            I, pr = interp(p, {"k": (3, 1)})
            dead = False
            v = S("v")
            try:
                c = Ptr(I.alloc(commval(I, p, "k"), "comm"))
                vv = Ptr(I.alloc(v, "v")) if w.endswith("const") else v
                try:
                    r = I.call(wfid(p, w), [c, vv, num(opv)], None, None)
                    r = pr.val(I, r)
                except Dead:
                    dead = True
                if opn == "unknown":
                    res.check(dead and not pr.done, "P16", "unknown operations are refused", "src/mpi/communicator.hpp", "an unknown operation is not refused by allreduce")
                    continue
                if dead or not pr.done:
                    res.add("P16", "allreduce %s" % opn, "viol", "src/mpi/communicator.hpp", "allreduce of %s with %s never reaches MPI" % (t, opn))
                    continue
                live = [d for d in pr.done if d["kind"] == "allreduce" and d["pc"] is not FALSE]
                d = live[-1]
                loc = d["loc"]
                res.check(opname(d["op"]) == opn, "P16", "allreduce %s" % opn, loc, "allreduce with %s is carried out as %r" % (opn, opname(d["op"])))
                res.check(mpilayout(d["type"])[0] == [(0, t)], "P16", "allreduce element type", loc, "allreduce of %s passes the datatype of %s" % (t, mpilayout(d["type"])[0]))
                res.check(isnum(d["count"]) and d["count"].args[0] == 1, "P16", "allreduce count", loc, "allreduce of one %s passes count %r" % (t, d["count"]))
                res.check(d["comm"] == "k", "P16", "collective uses its own communicator", loc, "allreduce runs on communicator %s" % d["comm"])
                res.check(d["value"] is v and isinstance(r, T) and r.op == "allreduce" and r.args[2] is v, "P16", "allreduce returns the reduction", loc,
                          "allreduce returns %r for the argument %r" % (r, d["value"]))
                res.check(len(live) == 1, "P16", "one reduction per call", loc, "allreduce performs %d reductions" % len(live))
            except (Undecided, AttributeError, TypeError, ValueError, KeyError) as e:
                res.add("P16", "allreduce %s" % opn, "und", "src/mpi/communicator.hpp", "%s: %s" % (type(e).__name__, e))


def elems(prefix, t, n):
    if t == "key":
        return [Rec(None, {"first": S("%s%d.f" % (prefix, i)), "second": S("%s%d.s" % (prefix, i))}) for i in range(n)]
    return [S("%s%d" % (prefix, i)) for i in range(n)]


def samev(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return a is b
    if isinstance(a, Rec) and isinstance(b, Rec):
        return set(a.f) == set(b.f) and all(samev(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec) and isinstance(b, Vec) and a.items is not None and b.items is not None:
        return len(a.items) == len(b.items) and all(samev(x, y) for x, y in zip(a.items, b.items))
    return False


CT = {"double": "double", "int": "int", "key": ("int", "int"), "cplx": "cplx"}


def typeok(res, recs, t, what):
    for d in recs:
        res.check(mpilayout(d["type"])[0] == layout(CT.get(t, t)), "P16", "gather element type", d["loc"],
                  "%s: a buffer of %s is sent as %s" % (what, str(t), mpilayout(d["type"])[0]))
        res.check(d["inplace"], "P16", "gather sends its own block", d["loc"], "%s does not send the rank's own block of the buffer" % what)
        res.check(d["comm"] == "k", "P16", "collective uses its own communicator", d["loc"], "%s runs on communicator %s" % (what, d["comm"]))


def gathers(p, res):
    where = "src/mpi/communicator.hpp"
    # fixed count, counts, counts with displacements: raw buffers
    cases = [("g_double", "double", "n"), ("g_int", "int", "n"), ("gv_double", "double", "c"), ("gv_key", "key", "c"), ("gd_double", "double", "d"), ("gd_cplx", "cplx", "d")]
    for w, t, mode in cases:
        if gone(p, res, "P16", w):
            continue
        for cnt in ([2], [1, 1], [2, 2, 2], [3, 1], [0, 2], [2, 0, 1], [0, 0, 3], [1, 2, 0]):
            P = len(cnt)
            if mode == "n" and len(set(cnt)) != 1:
                continue
            if mode == "d":
                dis = [sum(cnt[q + 1:]) for q in range(P)]       # reversed order
            else:
                dis = [sum(cnt[:q]) for q in range(P)]
            tot = sum(cnt)

            def run(r, known):
                I, pr = interp(p, {"k": (P, r)}, known)
                c = Ptr(I.alloc(commval(I, p, "k"), "comm"))
                items = elems("old", t, tot)
                mine = elems("r%d." % r, t, cnt[r])
                items[dis[r]:dis[r] + cnt[r]] = mine
                b = I.alloc(Vec(items=items), "buf")
                a = [c, Ptr(b, (), ZERO)]
                if mode == "n":
                    a.append(num(cnt[0]))
                else:
                    a.append(Ptr(I.alloc(Vec(items=[num(x) for x in cnt]), "counts")))
                if mode == "d":
                    a.append(Ptr(I.alloc(Vec(items=[num(x) for x in dis]), "displs")))
                try:
                    I.call(wfid(p, w), a, None, None)
                except NextCollective:
                    return NextCollective, pr, I, None
                return None, pr, I, I.st.get(b)
            try:
                outs = together(P, run)
                want = elems("old", t, tot)
                for q in range(P):
                    want[dis[q]:dis[q] + cnt[q]] = elems("r%d." % q, t, cnt[q])
                typeok(res, outs[0][1].done, t, "allgather")
                for r in range(P):
                    res.check(samev(outs[r][3], Vec(items=want)), "P16", "allgather delivers every rank's block", outs[r][1].done[-1]["loc"] if outs[r][1].done else where,
                              "allgather (%s) of %s elements per rank does not deliver every rank's block in its place" % ({"n": "count", "c": "counts", "d": "displacements"}[mode], cnt))
            except (Mismatch, OutOfRange) as e:
                res.add("P16", "allgather stays within its buffer", "viol", getattr(e, "loc", where), "allgather (%s) of %s elements per rank: %s" % (mode, cnt, e))
            except (Undecided, AttributeError, TypeError, ValueError, KeyError, IndexError) as e:
                res.add("P16", "allgather %s" % w, "und", where, "%s: %s" % (type(e).__name__, e))
    # vectors
    for w, t in (("vv_double", "double"), ("vv_int", "int"), ("vv_key", "key")):
        if gone(p, res, "P16", w):
            continue
        for cnt in ([2], [1, 1], [3, 1], [0, 2], [2, 0, 1], [0, 0, 3], [1, 2, 0]):
            P = len(cnt)

            def run(r, known):
                I, pr = interp(p, {"k": (P, r)}, known)
                c = Ptr(I.alloc(commval(I, p, "k"), "comm"))
                b = I.alloc(Vec(items=elems("r%d." % r, t, cnt[r])), "vals")
                try:
                    v = I.call(wfid(p, w), [c, Ptr(b)], None, None)
                except NextCollective:
                    return NextCollective, pr, I, None
                return None, pr, I, pr.val(I, v)
            try:
                outs = together(P, run)
                typeok(res, outs[0][1].done[1:], t, "allgather of a vector")
                for r in range(P):
                    want = Vec(items=[Vec(items=elems("r%d." % q, t, cnt[q])) for q in range(P)])
                    res.check(samev(outs[r][3], want), "P16", "allgather of vectors delivers one vector per rank", p.loc(p.F[wfid(p, w)]["loc"]),
                              "allgather of vectors with %s entries per rank does not return each rank's vector" % cnt)
            except (Mismatch, OutOfRange) as e:
                res.add("P16", "allgather stays within its buffer", "viol", getattr(e, "loc", where), "allgather of vectors with %s entries per rank: %s" % (cnt, e))
            except (Undecided, AttributeError, TypeError, ValueError, KeyError, IndexError) as e:
                res.add("P16", "allgather %s" % w, "und", where, "%s: %s" % (type(e).__name__, e))


DISTS = [
    [[(0, 0), (1, 0)]],
    [[(0, 0)], [(1, 0)]],
    [[(0, 0), (0, 1)], [(1, 0), (1, 1)]],
    [[(2, 0)], [(0, 0), (1, 0)]],
    [[(0, 0), (3, 1)], [(1, 0)], [(0, 1), (2, 1)]],
    [[(1, 0)], [], [(0, 0), (0, 1)]],
    [[], [(0, 0)]],
    [[(5, 1), (7, 0)], [(6, 0)]],
]


def blocksize(k):
    return 1 + (3 * k[0] + k[1]) % 3


def mvectors(p, res, tier):
    where = "src/la/mvector.hpp"
    for w, kind in (("m_scalar", "s"), ("m_scalar_on", "s"), ("m_int", "s"), ("m_view", "v"), ("m_view_on", "v")):
        if gone(p, res, "P24", w) or gone(p, res, "P24", "size_of"):
            continue
        f = p.F[wfid(p, w)]
        mcls = p.cls_of(p.strip_ref(f["params"][0][2]))
        ccls = p.cls_of(p.strip_ref(p.F[wfid(p, "size_of")]["params"][0][2]))
        for dist in DISTS:
            P = len(dist)

            def run(r, known):
                I, pr = interp(p, {"k": (P, r)}, known)
                d = {}
                for k in sorted(dist[r]):
                    kt = mk("mkkey", num(k[0]), num(k[1]))
                    if kind == "s":
                        d[kt] = S("x%d.%d" % k)
                    else:
                        c = I.alloc(Arr((num(blocksize(k)),), (num(1),), mk("el", S("X%d.%d" % k), IX0)), "blk")
                        d[kt] = View(c, 1)
                own = "k"
                m = Rec(mcls, {"data_": Map(None, d), "comm_": Rec(ccls, commval(I, p, own).f)})
                a = [Ptr(I.alloc(m, "mv"))]
                if w.endswith("_on"):
                    a.append(Ptr(I.alloc(Rec(ccls, commval(I, p, "k").f), "comm")))
                try:
                    v = I.call(wfid(p, w), a, None, None)
                except NextCollective:
                    return NextCollective, pr, I, None
                except Dead:
                    return None, pr, I, None
                return None, pr, I, pr.val(I, v)
            what = "gather of per-k-point %s distributed as %s" % ("values" if kind == "s" else "arrays", dist)
            try:
                outs = together(P, run)
                allk = {k: r for r in range(P) for k in dist[r]}
                for r in range(P):
                    _, pr, I, v = outs[r]
                    for dd in pr.done:
                        n = I.p
                    if v is None:
                        res.add("P24", "gather over all ranks", "viol", where, "%s throws" % what)
                        continue
                    data = v.f["data_"]
                    got = {keyof(k): x for k, x in data.s.items()}
                    ok = set(got) == set(allk)
                    if ok:
                        for k, x in got.items():
                            if kind == "s":
                                ok = ok and x is S("x%d.%d" % k)
                            else:
                                A = pr.arr(I, x)
                                n = A.ext[0]
                                ok = ok and isnum(n) and int(n.args[0]) == blocksize(k) and all(
                                    I.vecget(A, num(i)) is mk("el", S("X%d.%d" % k), num(i)) for i in range(blocksize(k)))
                    for pid in ("P24", "P10"):
                        res.check(ok, pid, "gathered entries keep their label", where, "%s: a rank ends up with a missing, foreign or mislabelled entry" % what)
                    res.check(all(d["comm"] == "k" for d in pr.done), "P24", "gather uses the collection's communicator", where, "%s runs on another communicator" % what)
                # element types of what is exchanged
                for d in outs[0][1].done:
                    bufty(res, d, what)
            except (Mismatch, OutOfRange) as e:
                for pid in ("P24", "P16"):
                    res.add(pid, "gather stays within its buffers", "viol", getattr(e, "loc", where), "%s: %s" % (what, e))
            except (Undecided, AttributeError, TypeError, ValueError, KeyError, IndexError) as e:
                res.add("P24", "gathered entries keep their label", "und", where, "%s: %s" % (type(e).__name__, e))


def bufty(res, d, what):
    lay = mpilayout(d["type"])[0]
    v = d["buf"]
    if not (isinstance(v, Vec) and v.items):
        return

    def n(x):
        return sum(n(y) for y in x.f.values()) if isinstance(x, Rec) else 1
    res.check(len(lay) == n(v.items[0]), "P16", "gather element type", d["loc"], "%s: elements with %d fields are sent with the datatype %s" % (what, n(v.items[0]), lay))


def misuse(p, res):
    """a communicator smaller than the collection's own is refused; none selects the collection's own"""
    where = "src/la/mvector.hpp"
    for w in ("m_scalar_on", "m_view_on"):
        if gone(p, res, "P24", w) or gone(p, res, "P24", "size_of"):
            continue
        f = p.F[wfid(p, w)]
        mcls = p.cls_of(p.strip_ref(f["params"][0][2]))
        ccls = p.cls_of(p.strip_ref(p.F[wfid(p, "size_of")]["params"][0][2]))
        I, pr = interp(p, {"k": (2, 0), "small": (1, 0)})
        m = Rec(mcls, {"data_": Map(None, {}), "comm_": Rec(ccls, commval(I, p, "k").f)})
        dead = False
        try:
            try:
                I.call(wfid(p, w), [Ptr(I.alloc(m, "mv")), Ptr(I.alloc(Rec(ccls, commval(I, p, "small").f), "comm"))], None, None)
            except Dead:
                dead = True
            except NextCollective:
                pass
            res.check(dead, "P24", "a smaller communicator is refused", where, "gathering a distributed collection over a smaller communicator is not refused")
        except (Undecided, AttributeError, TypeError, ValueError, KeyError) as e:
            res.add("P24", "a smaller communicator is refused", "und", where, "%s: %s" % (type(e).__name__, e))
    for w, op in (("size_of", 3), ("rank_of", 1)):
        if gone(p, res, "P16", w):
            continue
        I, pr = interp(p, {"k": (3, 1)})
        try:
            r = pr.val(I, I.call(wfid(p, w), [Ptr(I.alloc(commval(I, p, "k"), "comm"))], None, None))
            res.check(isnum(r) and r.args[0] == op, "P16", "rank and size", "src/mpi/communicator.hpp", "%s of a communicator is reported as %r" % (w[:4], r))
        except (Undecided, AttributeError, TypeError, ValueError, KeyError) as e:
            res.add("P16", "rank and size", "und", "src/mpi/communicator.hpp", "%s: %s" % (type(e).__name__, e))


def task(arg, tier, seed):
    res = Res()
    p = load(SRC)
    types(p, res)
    reductions(p, res)
    gathers(p, res)
    mvectors(p, res, tier)
    misuse(p, res)
    return res, {"types": len(TYPES), "distributions": len(DISTS)}
