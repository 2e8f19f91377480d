"""Model of the caller-supplied DFT backend."""
from term import *
from values import *
import prims as P

HOST = num(1)
LDOM = mk("ldom")
NK = mk("nk", "k")


def kidx(n, i):
    """label the host stores at position i of collection n (the order of labels may differ between collections)"""
    return mk("kidx", n, i)


class Backend:
    """cells: W (world token), C, hphi, sphi, fn, ek, ekin arrays, mu"""

    def __init__(self, I, prims):
        self.I = I
        prims.backend = self
        npw, nb = mk("npw", K), mk("nb", K)
        self.W = I.alloc(mk("sym", "W0"), "world")
        I.kdepth = 1
        self.C = I.alloc(Arr((npw, nb), (mk("st0", "C", K), mk("ldC", K)), mk("el", mk("at", mk("sym", "C0"), K), IX0, IX1)), "backend:C")
        self.hphi = I.alloc(Arr((npw, nb), (mk("st0", "hphi", K), mk("ldH", K)), mk("el", mk("at", mk("hphi", mk("sym", "W0")), K), IX0, IX1)), "backend:hphi")
        self.sphi = I.alloc(Arr((npw, nb), (mk("st0", "sphi", K), mk("ldS", K)), mk("el", mk("at", mk("sphi", mk("sym", "W0")), K), IX0, IX1)), "backend:sphi")
        self.fn = I.alloc(Arr((nb,), (mk("st0", "fn", K),), mk("el", mk("at", mk("sym", "fn0"), K), IX0)), "backend:fn")
        self.ek = I.alloc(Arr((nb,), (mk("st0", "ek", K),), mk("el", mk("at", mk("bek", mk("sym", "W0")), K), IX0)), "backend:ek")
        self.ekin = I.alloc(Arr((npw,), (mk("st0", "ekin", K),), mk("el", mk("at", mk("sym", "ekin"), K), IX0)), "backend:ekin")
        I.kdepth = 0
        self.mu = I.alloc(mk("sym", "mu0"), "backend:mu")
        self.commk = I.alloc(Opq(mk("sym", "commk")), "commk")
        self.commg = I.alloc(Opq(mk("sym", "commg")), "commg")
        P.LOCALCOMMS.add("commg")
        self.objs = {}
        for n, c in (("C", self.C), ("hphi", self.hphi), ("sphi", self.sphi), ("fn", self.fn), ("ek", self.ek), ("ekin", self.ekin), ("wk", None)):
            self.objs[n] = (I.alloc(Opq(mk("const", "buf:" + n), "buffer:" + n), "buf:" + n), c)
        self.energy = Ptr(I.alloc(Opq(mk("const", "energy"), "EnergyBase"), "energy"))
        self.S = Ptr(I.alloc(Opq(mk("const", "op:S"), "OpBase"), "overlap"))
        self.P = Ptr(I.alloc(Opq(mk("const", "op:P"), "OpBase"), "precond"))

    def virtual(self, prims, I, fid, f, o, v, args, loc):
        m = f["short"]
        t = v.t.args[0] if isinstance(v, Opq) and v.t.op == "const" else None
        if t == "energy":
            return (self.en(prims, I, m, args, loc, f),)
        if t and t.startswith("buf:"):
            return (self.buf(prims, I, t[4:], m, args, loc, f),)
        if t and t.startswith("op:"):
            return (self.op(prims, I, t[3:], m, args, loc, f),)
        return None

    def en(self, prims, I, m, args, loc, f):
        if m == "compute":
            w = mk("W", I.st.get(self.W), mkmat(I.st.get(self.C).body, 2), mkmat(I.st.get(self.fn).body, 1))
            I.event("compute", (w,), loc)
            I.st = I.st.set(self.W, w)
            for c, n, r in ((self.hphi, "hphi", 2), (self.sphi, "sphi", 2), (self.ek, "bek", 1)):
                a = I.st.get(c)
                I.st = I.st.set(c, Arr(a.ext, a.stride, mk("el", mk("at", mk(n, w), K), *IXS[:r])))
            return None
        if m == "nelectrons":
            return mk("sym", "nel")
        if m == "occupancy":
            return mk("sym", "occ")
        if m == "get_total_energy":
            I.event("get_total_energy", (I.st.get(self.W),), loc)
            return mk("etot", I.st.get(self.W))
        if m in ("get_hphi", "get_sphi", "get_C", "get_fn", "get_ek", "get_gkvec_ekin", "get_kpoint_weights"):
            n = {"get_gkvec_ekin": "ekin", "get_kpoint_weights": "wk"}.get(m, m[4:])
            if args:
                I.event("memtype", (n, prims.sc(I, args[0])), loc)
            return Ptr(self.objs[n][0])
        if m == "set_fn":
            ks, fs = prims.val(I, args[0]), prims.val(I, args[1])
            I.event("set_fn", (ks, fs), loc)
            a = I.st.get(self.fn)
            ok = isinstance(ks, Vec) and isinstance(fs, Vec) and ks.kdom is LDOM and fs.kdom is LDOM and prims.keyterm(I, ks.elem) is K
            e = fs.elem if ok else None
            if ok and isinstance(e, Vec):
                e = I.absvec(e)
            if ok and isinstance(e, Vec) and isinstance(e.body, T) and e.n is a.ext[0]:
                I.st = I.st.set(self.fn, Arr(a.ext, a.stride, e.body))
            else:
                I.st = I.st.set(self.fn, Arr(a.ext, a.stride, mk("el", mk("at", I.fresh("badfn"), K), IX0)))
                I.event("set_fn_bad", (ks, fs), loc)
            return None
        if m == "set_chemical_potential":
            x = prims.sc(I, args[0])
            I.event("set_mu", (x,), loc)
            I.st = I.st.set(self.mu, x)
            return None
        if m == "get_chemical_potential":
            return I.st.get(self.mu)
        if m == "print_info":
            I.event("io", ("backend print_info",), loc)
            return None
        if m == "get_energy_components":
            return Map(None, {})
        I.note("backend " + m)
        return I.fresh(m)

    def buf(self, prims, I, n, m, args, loc, f):
        if m == "size":
            return NK
        if m == "mpicomm":
            return Ptr(self.commk) if not args else Ptr(self.commg)
        if m == "kpoint_index":
            return prims.keyrec(kidx(n, prims.sc(I, args[0])))
        if m == "get":
            k = kidx(n, prims.sc(I, args[0]))
            if n == "wk":
                return mk("el", mk("at", mk("sym", "wk"), k), ZERO)
            a = I.st.get(self.objs[n][1])
            mm = {K: k}
            return Rec(prims.p.cls_of(f["ret"]), {"stride": Vec(items=[subst(x, mm) for x in a.stride]), "size": Vec(items=[subst(x, mm) for x in a.ext]),
                              "data": Ptr(self.objs[n][1], (("slice", k),), ZERO), "memtype": HOST, "mpi_comm": Ptr(self.commg)})
        I.note("buffer " + m)
        return I.fresh(m)

    def op(self, prims, I, n, m, args, loc, f):
        if m == "get_keys":
            return Vec(kdom=LDOM, elem=prims.keyrec(K))
        if m == "apply":
            key = prims.keyterm(I, args[0])
            out, inn = prims.val(I, args[1]), prims.val(I, args[2])
            ri, ro = self.bufmem(prims, I, inn), self.bufmem(prims, I, out)
            I.event("op", {"op": n, "key": key, "in": inn, "out": out, "rin": ri, "rout": ro}, loc)
            if ri is None or ro is None:
                I.note("operator buffers")
                return None
            body = mk("el", mk("op", n, key, mkmat(ri[1].body, 2)), IX0, IX1)
            prims.setarr(I, ro[0], body)
            return None
        I.note("op " + m)
        return I.fresh(m)

    def bufmem(self, prims, I, b):
        if not isinstance(b, Rec):
            return None
        return prims.mem(I, b.f.get("data"))
