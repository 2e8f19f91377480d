"""Dense operations of src/la: value graph of every operation on caller-described buffers, compared with the documented result.

Sizes, leading dimensions and scalar factors are symbols; the resulting element terms are compared with numpy at random points
for several shapes (including one-row, one-column and rectangular ones)."""
import random

import numpy as np

from model import *
from ri import World, Undecided, Undef, close, hsym
from solver import Res, same

SRC = "witness/la_ops.cpp"


class Buf:
    def __init__(self, name, *dims):
        self.name, self.dims = name, dims


class Out(Buf):
    pass


# function, arguments (buffers and scalars), result buffer, reference, relations between dimensions
def H(x):
    return x.conj().T


def invsqrt(m):
    l, v = np.linalg.eigh(m)
    return v @ np.diag(1 / np.sqrt(l)) @ H(v)


CASES = [
    ("w_inner", "C:m,n A:k,m B:k,n alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * H(v["A"]) @ v["B"]),
    ("w_inner_left", "C:m,n A:k,m B:k,n alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * H(v["A"]) @ v["B"]),
    ("w_outer", "C:m,n A:m,k B:n,k alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"] @ H(v["B"])),
    ("w_outer_left", "C:m,n A:m,k B:n,k alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"] @ H(v["B"])),
    ("w_transform", "C:m,n A:m,k B:k,n alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"] @ v["B"]),
    ("w_transform_left", "C:m,n A:m,k B:k,n alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"] @ v["B"]),
    ("w_add", "C:m,n A:m,n alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"]),
    ("w_add_left", "C:m,n A:m,n alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"]),
    ("w_add_default", "C:m,n A:m,n alpha", "C", lambda v: v["C"] + v["alpha"] * v["A"]),
    ("w_axpy", "C:m,n A:m,n alpha beta", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"]),
    ("w_scale_cols", "C:m,n A:m,n x:n alpha_r beta_r", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"] * v["x"][None, :]),
    ("w_scale_cols0", "C:m,n A:m,n x:n alpha_r", "C", lambda v: v["alpha"] * v["A"] * v["x"][None, :]),
    ("w_scale", "C:m,n A:m,n alpha_r beta_r", "C", lambda v: v["beta"] * v["C"] + v["alpha"] * v["A"]),
    ("w_scale0", "C:m,n A:m,n alpha_r", "C", lambda v: v["alpha"] * v["A"]),
    ("w_inner_alloc", "C:m,n A:k,m B:k,n alpha beta", "C", lambda v: v["alpha"] * H(v["A"]) @ v["B"]),
    ("w_inner_alloc1", "C:m,n A:k,m B:k,n", "C", lambda v: H(v["A"]) @ v["B"]),
    ("w_transform_alloc", "C:m,n A:m,k B:k,n alpha", "C", lambda v: v["alpha"] * v["A"] @ v["B"]),
    ("w_transform_alloc1", "C:m,n A:m,k B:k,n", "C", lambda v: v["A"] @ v["B"]),
    ("w_innerh_tr", "A:m,n B:m,n", None, lambda v: np.sum(v["A"] * v["B"].conj())),
    ("w_solve_sym", "A!:h,h B:h,n", "B", lambda v: np.linalg.solve(v["A"], v["B"])),
    ("w_loewdin", "Y:p,h X:p,h", "Y", lambda v: v["X"] @ invsqrt(H(v["X"]) @ v["X"])),
    ("w_loewdin_s", "Y:p,h X:p,h SX!X:p,h", "Y", lambda v: v["X"] @ invsqrt(H(v["X"]) @ v["SX"])),
    ("w_eigh", "U:h,h w:h S!:h,h", "U", None),
    ("w_diag", "d:m,one X:m,n", "d", lambda v: np.diag(v["X"][:, :])[:, None]),
    ("w_make_diag", "C:n,n x:n", "C", lambda v: np.diag(v["x"]).astype(complex)),
    ("w_zeros_like", "C:m,n A:m,n", "C", lambda v: 0 * v["A"]),
    ("w_copy", "C:m,n A:m,n", "C", None),
    ("w_copyf", "C:m,n A:m,n", "C", lambda v: 3 * v["A"]),
]
SHAPES = [{"m": 3, "n": 2, "k": 4}, {"m": 2, "n": 3, "k": 1}, {"m": 1, "n": 4, "k": 2}, {"m": 4, "n": 1, "k": 3}, {"m": 2, "n": 2, "k": 2}]


def parse(spec):
    out = []
    for tok in spec.split():
        if ":" in tok:
            nm, d = tok.split(":")
            mark = None
            if "!" in nm:
                nm, mark = nm.split("!")
                mark = mark or "herm"
            out.append(("buf", nm, d.split(","), mark))
        else:
            out.append(("sc", tok.replace("_r", ""), tok.endswith("_r"), None))
    return out


def leafsym(nm, rank):
    return mk("el", S("M:" + nm), *IXS[:rank])


def evaluate(p, name, spec):
    """(interp, {buffer: cell}, returned value, pc) of one call with symbolic arguments"""
    pr = Prims(p)
    I = Interp(p, pr)
    B = Backend(I, pr)
    sinks(I, p)
    fid = p.find("witness::" + name)
    if len(fid) != 1:
        raise AnalysisBroken("witness %s not found" % name)
    f = p.F[fid[0]]
    args, cells = [], {}
    for (kind, nm, d, mark), (vid, pname, ty) in zip(parse(spec), f["params"]):
        if kind == "buf":
            ext = tuple(num(1) if x == "one" else S(x) for x in d)
            st = (num(1), S("ld" + nm)) if len(d) == 2 else (S("inc" + nm),)
            if nm == "x" and len(d) == 1:
                st = (S("inc" + nm),)
            c = I.alloc(Arr(ext, st, leafsym(nm, len(d))), "arg:" + nm)
            cells[nm] = c
            cls = p.cls_of(p.strip_ref(ty))
            r = Rec(cls, {"stride": Vec(items=list(st)), "size": Vec(items=list(ext)), "data": Ptr(c, (), ZERO), "memtype": num(1), "mpi_comm": Ptr(B.commg)})
            args.append(Ptr(I.alloc(r, "buf:" + nm)))
        else:
            if d:
                args.append(S(nm))
            else:
                args.append(pr.cpx(I, f, ty, S(nm + "_c")) if hasattr(pr, "cpx") else mk("cpx", S(nm + ".re"), S(nm + ".im")))
    dead = False
    ret = None
    try:
        ret = I.call(fid[0], args, None, None)
        if isinstance(ret, (Ptr, PtrSel)):
            ret = I.load(ret)
    except Dead:
        dead = True
    return I, cells, ret, dead, p.loc(f["loc"])


def concrete(w, spec, seed):
    v = {}
    rng = np.random.default_rng(seed)
    for (kind, nm, d, mark) in parse(spec):
        if kind == "sc":
            if d:
                v[nm] = w.scal[nm]
            else:
                v[nm] = complex(w.scal[nm + ".re"], w.scal[nm + ".im"])
            continue
        sh = [1 if x == "one" else w.scal[x] for x in d]
        a = rng.normal(size=sh)
        if len(sh) == 2:
            a = a + 1j * rng.normal(size=sh)
        if mark == "herm":
            a = a @ H(a) + np.eye(sh[0])
        elif mark:
            m_ = rng.normal(size=(sh[0], sh[0])) + 1j * rng.normal(size=(sh[0], sh[0]))
            a = (m_ @ H(m_) + np.eye(sh[0])) @ v[mark]
        v[nm] = a
        w.over[S("M:" + nm)] = (lambda a: lambda k, *ix: (a[ix].item() if all(i < n for i, n in zip(ix, a.shape)) else 7.7e3))(a)
    return v


def getarr(w, arr):
    env = {"R": 0, "K": 0}
    ext = [int(w.re(e, env)) for e in arr.ext]
    out = np.zeros(ext, complex)
    for ix in np.ndindex(*ext):
        out[ix] = w.ev(arr.body, dict(env, **{"ix%d" % i: x for i, x in enumerate(ix)}))
    return out


def task(arg, tier, seed):
    res = Res()
    p = load(SRC)
    nev = 0
    for (name, spec, outb, ref) in CASES:
        if len(p.find("witness::" + name)) != 1:
            res.add("P12", name[2:], "und", SRC, "this tree does not offer the call analysed by witness %s" % name)
            continue
        try:
            I, cells, ret, dead, loc = evaluate(p, name, spec)
        except AnalysisBroken:
            raise
        except Exception as e:      # noqa: BLE001
            res.add("P12", name[2:], "und", name, "%s: %s" % (type(e).__name__, e))
            continue
        if dead:
            res.add("P12", name[2:], "viol", loc, "%s always throws" % name[2:])
            continue
        nev += len(I.events)
        pcc = I.pc
        src = opsrc(p, name)
        for si, sh in enumerate(SHAPES if tier == "quick" else SHAPES + [{"m": a, "n": b, "k": c} for a in (1, 2, 3) for b in (1, 3) for c in (1, 2, 4)]):
            if name == "w_diag" and sh["m"] > sh["n"]:
                sh = dict(sh, n=sh["m"])
            for variant in range(3):
                sc = dict(sh)
                sc["p"], sc["h"] = sh["m"] + sh["n"], sh["n"]
                for (kind, nm, d, mark) in parse(spec):
                    if kind == "buf":
                        if len(d) == 2:
                            r = 1 if d[0] == "one" else sc[d[0]]
                            sc["ld" + nm] = r + 1 + (len(nm) + ord(nm[0]) + si) % 3
                        else:
                            sc["inc" + nm] = 2
                    elif d:
                        sc[nm] = [0.7, -1.3, 0.0][variant] if nm == "beta" else [1.0, 0.6, -2.0][variant]
                    else:
                        z = [0.4 - 0.9j, 1.0 + 0j, 0j][variant] if nm == "beta" else [1.1 + 0.3j, -0.5 + 0.8j, 1 + 0j][variant]
                        sc[nm + ".re"], sc[nm + ".im"] = z.real, z.imag
                w = World(900 + si, nk=1, ranks=((0,),), nb=(sc["n"],), npw=(sc["m"],), scal=sc)
                v = concrete(w, spec, 77 + si)
                try:
                    if not w.b(pcc, {"R": 0, "K": 0}):
                        res.add("P12", "%s returns" % name[2:], "viol", src, "%s throws for admissible arguments (shape %s)" % (name[2:], sh))
                        continue
                    for what, loc in bounds(I, w, {"R": 0, "K": 0}):
                        res.add("P12", "%s stays within its operands" % name[2:], "viol" if what else "ok", loc,
                                "%s: %s (shape m=%d n=%d k=%d)" % (name[2:], what, sh["m"], sh["n"], sh["k"]))
                    for nm, c in cells.items():
                        if nm == outb or (name == "w_eigh" and nm == "w") or (name == "w_solve_sym" and nm == "A"):
                            continue
                        a = I.st.get(c)
                        res.check(same(getarr(w, a), v[nm]), "P12", "%s keeps its input %s" % (name[2:], nm), src, "%s changes its input %s (shape %s)" % (name[2:], nm, sh))
                    if name == "w_eigh":
                        lam = getarr(w, I.st.get(cells["w"])).real
                        U = getarr(w, I.st.get(cells["U"]))
                        M = v["S"]
                        ok = same(lam, np.linalg.eigvalsh(M)) and same(M @ U, U @ np.diag(lam)) and same(H(U) @ U, np.eye(len(lam)))
                        res.check(ok, "P12", "eigh", src, "eigh does not deliver eigenvalues and orthonormal eigenvectors of its input (n=%d)" % len(lam))
                        continue
                    if name == "w_copy":
                        got = getarr(w, I.st.get(cells["C"]))
                        res.check(same(got, 3 * v["A"]) , "P12", "assignment shares, copy separates", src, "a copied matrix still shares storage with its source")
                        continue
                    want = ref(v)
                    if outb is None:
                        got = w.ev(scalarret(ret), {"R": 0, "K": 0})
                        ok = close(got, want, 1e-7)
                    else:
                        got = getarr(w, I.st.get(cells[outb]))
                        ok = same(got, want)
                    res.check(ok, "P12", name[2:], src, "%s does not compute its documented result (shape m=%d n=%d k=%d%s)" % (
                        name[2:], sh["m"], sh["n"], sh["k"], ", zero beta" if variant == 2 else ""))
                except (Undef, Undecided) as e:
                    res.add("P12", name[2:], "und", src, "%s: %s" % (type(e).__name__, e))
    return res, {"operations": len(CASES), "events": nev}


def bounds(I, w, env):
    """shape agreement of every library call reached: (None or what is wrong, location)"""
    for e in I.events:
        if e.kind not in ("gemm", "deep_copy", "eigh", "potrs", "potrf") or not e.data:
            continue
        if not w.b(e.pc, env):
            continue
        loc = I.p.loc(e.loc) if isinstance(e.loc, int) else str(e.loc)
        d = e.data

        def dims(a):
            return [int(w.re(x, env)) for x in a]
        if e.kind == "deep_copy":
            a, b = dims(d[0]), dims(d[1])
            yield (None if a == b else "an array of extents %s is copied into one of extents %s" % (b, a)), loc
        elif e.kind == "gemm":
            m, n, k = dims((d["m"], d["n"], d["k"]))
            bad = None
            for nm, t, r, c in (("A", d["ta"], m, k), ("B", d["tb"], k, n), ("C", None, m, n)):
                x = dims(d[nm].ext)
                if t is not None and not (isnum(t) and t.args[0] == 111):
                    r, c = c, r
                if x != [r, c]:
                    bad = "matrix product takes operand %s of extents %s as %s" % (nm, x, [r, c])
            yield bad, loc
        elif e.kind == "eigh":
            n = dims((d["n"],))[0]
            x, y = dims(d["A"].ext), dims(d["w"].ext)
            yield (None if x == [n, n] and y == [n] else "eigenvalue problem of size %d on arrays of extents %s, %s" % (n, x, y)), loc
        elif e.kind == "potrf":
            n = dims((d["n"],))[0]
            x = dims(d["A"].ext)
            yield (None if x == [n, n] else "factorisation of size %d on an array of extents %s" % (n, x)), loc
        else:
            n, r = dims((d["n"], d["nrhs"]))
            x, y = dims(d["A"].ext), dims(d["B"].ext)
            yield (None if x == [n, n] and y == [n, r] else "solve of size %d for %d right-hand sides on arrays of extents %s, %s" % (n, r, x, y)), loc


def scalarret(r):
    if isinstance(r, T):
        return r
    if isinstance(r, Rec) and len(r.f) >= 2:
        a, b = list(r.f.values())[:2]
        return mk("cpx", a, b)
    raise Undecided("scalar result %s" % type(r).__name__)


def opsrc(p, name):
    """source position of the library operation a witness calls (last repository function in its body)"""
    f = p.F[p.find("witness::" + name)[0]]
    return p.loc(f["loc"])
