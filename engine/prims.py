"""Models of the external world: C++ standard library, Kokkos, BLAS/LAPACK, MPI and
the caller-supplied backend (energy, overlap, preconditioner)."""
import math
from term import *
from values import *
from prog import AnalysisBroken
from interp import RefBox, Choice, Dead, delta

TRANSPARENT_PTR = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")
MATH1 = {"sqrt", "exp", "log", "erf", "erfc", "fabs", "cosh", "sinh", "tanh", "cos", "sin", "expm1", "log1p"}


class Prims:
    def __init__(self, prog):
        self.p = prog
        self.nstat = 0
        self.skip = {"nlcglib::Communicator"}
        self.backend = None

    # ------------------------------------------------------------ helpers
    def rank_of(self, typ):
        """rank of a Kokkos::View type"""
        c = self.p.cls_of(typ)
        t = self.p.C[c]["targs"][0][1]
        s = self.p.ty(t)["s"]
        return s.count("*") + s.count("[")

    def rank_cls(self, c):
        s = self.p.ty(self.p.C[c]["targs"][0][1])["s"]
        return s.count("*") + s.count("[")

    def viewspace(self, c):
        return " ".join(self.p.ty(x[1])["s"] for a in self.p.C[c]["targs"][1:] if a[0] == "p" for x in a[1] if x[0] == "t")

    def val(self, I, a):
        while isinstance(a, (Ptr, PtrSel, RefBox)):
            a = a.p if isinstance(a, RefBox) else I.load(a)
        return a

    def val1(self, I, a):
        """load once (values that may themselves be pointers)"""
        if isinstance(a, RefBox):
            a = a.p
        if isinstance(a, (Ptr, PtrSel)):
            a = I.load(a)
        return a

    def sc(self, I, a):
        return I.tconv(self.val(I, a))

    def isscalar(self, t):
        return self.p.ty(t)["k"] in ("int", "flt", "bool", "enum", "cpx")

    # ------------------------------------------------------------ keys
    def keyterm(self, I, v):
        v = self.val(I, v)
        if isinstance(v, T):
            return v
        if isinstance(v, Rec):
            a, b = v.f.get("first"), v.f.get("second")
            if isinstance(a, T) and isinstance(b, T):
                if a.op == "kf" and b.op == "ks" and a.args[0] is b.args[0]:
                    return a.args[0]
                return mk("mkkey", a, b)
        if isinstance(v, Opq):
            return v.t
        I.note("map key")
        return I.fresh("key")

    def keyrec(self, k):
        return Rec(None, {"first": mk("kf", k), "second": mk("ks", k)})

    # ------------------------------------------------------------ defaults
    def default(self, I, cn, typ, c):
        if cn == "std::vector" or cn == "std::list" or cn == "std::deque":
            return Vec(items=[])
        if cn == "std::map" or cn == "std::unordered_map":
            return Map(None, {})
        if cn == "Kokkos::View":
            return View(None, self.rank_cls(c))
        if cn in TRANSPARENT_PTR:
            return NULL
        if cn == "std::pair":
            ta = self.p.C[c]["targs"]
            return Rec(c, {"first": I.zero(ta[0][1]), "second": I.zero(ta[1][1])})
        if cn == "std::tuple":
            ta = self.p.C[c]["targs"]
            ts = [x[1] for a in ta for x in (a[1] if a[0] == "p" else [a])]
            return Rec(None, {str(i): I.zero(t) for i, t in enumerate(ts)})
        if cn in ("Kokkos::complex", "std::complex"):
            return ZERO
        if cn == "std::basic_string":
            return mk("str", "")
        if cn in ("std::shared_future", "std::future"):
            return NULL
        if cn == "std::function":
            return NULL
        if cn == "std::array":
            ta = self.p.C[c]["targs"]
            n = int(ta[1][1])
            if n <= 64:
                return Vec(items=[I.default(ta[0][1]) for _ in range(n)])
        if cn == "std::optional":
            return Rec(c, {"has": FALSE, "val": mk("undef", "optional")})
        if cn == "std::atomic" or cn == "std::__atomic_base":
            return mk("undef", "atomic")
        return None

    def skipdtor(self, cn):
        return cn in self.skip

    def globalval(self, I, g):
        return Opq(mk("const", g["name"]))

    # ------------------------------------------------------------ iterators
    def itop(self, I, op, a, b):
        a, b = self.val1(I, a), self.val1(I, b)
        if op in ("==", "!=") and isinstance(a, It) and isinstance(b, It):
            if a.kind == "vec" and b.kind == "vec":
                r = ieq(a.pos, b.pos)
            elif isinstance(a.pos, T) or isinstance(b.pos, T):
                r = ieq(a.pos, b.pos) if isinstance(a.pos, T) and isinstance(b.pos, T) else atom(I.fresh("iteq"))
            elif a.pos == b.pos:
                r = TRUE
            elif "end" in (a.pos, b.pos) and (isinstance(a.pos, tuple) or isinstance(b.pos, tuple)):
                r = FALSE
            else:
                x = a if a.pos != "end" else b
                c = self.val(I, x.cont)
                r = atom(mk("emptydom?", c.dom)) if isinstance(c, Map) and c.dom is not None else FALSE
            return r if op == "==" else bnot(r)
        if isinstance(a, It) and a.kind == "vec":
            if op in ("+", "-") and not isinstance(b, It):
                n = self.sc(I, b)
                return It("vec", a.cont, add(a.pos, n) if op == "+" else sub(a.pos, n))
            if op == "-" and isinstance(b, It):
                return sub(a.pos, b.pos)
            if op in ("<", ">", "<=", ">="):
                return I.binop(op, a.pos, b.pos, None, None)
        if isinstance(b, It) and op == "+":
            return self.itop(I, op, b, a)
        I.note("iterator op " + op)
        return I.fresh("itop")

    def itadv(self, I, it, n):
        if it.kind == "vec":
            return It("vec", it.cont, add(it.pos, n))
        I.note("iterator ++ outside a range loop")
        return it

    def itderef(self, I, it):
        it = self.val1(I, it)
        if isinstance(it, (Ptr, PtrSel)):
            return it
        if isinstance(it, It):
            if it.kind == "vec":
                return Ptr(it.cont.cell, it.cont.path, it.pos) if not isinstance(it.cont, PtrSel) else I.index(it.cont, it.pos)
            if isinstance(it.pos, tuple):
                k = it.pos[1]
            elif it.pos == "begin":
                m = self.val(I, it.cont)
                ks = list(m.s) if isinstance(m, Map) and m.dom is None else []
                k = ks[0] if ks else mk("kfirst")
            else:
                k = I.fresh("key")
            if it.kind == "veck":
                return Ptr(it.cont.cell, it.cont.path, mk("kpos"))
            return Ptr(I.alloc(Rec(None, {"first": self.keyrec(k) if self.paired(I, it, k) else k,
                                          "second": RefBox(I.sub(it.cont, ("key", k)))}), "entry"))
        I.note("deref of iterator")
        return Opq(I.fresh("deref"))

    def paired(self, I, it, k):
        return not (isinstance(k, T) and k.op in ("str", "num"))

    # ------------------------------------------------------------ element iteration
    def foreach(self, I, b, e, body, loc):
        """body(elemPtr) for every element of [b,e)"""
        b, e = self.val1(I, b), self.val1(I, e)
        if isinstance(b, It) and b.kind == "map":
            m = self.val(I, b.cont)
            if isinstance(m, Map) and m.dom is None and K not in m.s:
                for k in list(m.s):
                    body(self.itderef(I, It("map", b.cont, ("key", k))))
                return
            p = Ptr(I.alloc(b, "it"))
            I.kloop(b, p, lambda: body(self.itderef(I, I.load(p))), loc)
            return
        if isinstance(b, It) and b.kind == "vec":
            v = self.val(I, b.cont)
            if isinstance(v, Vec) and v.kdom is not None:
                p = Ptr(I.alloc(b, "it"))
                I.kloop(It("veck", b.cont, "begin"), p, lambda: body(self.itderef(I, I.load(p))), loc)
                return
            cont, lo, hi = b.cont, b.pos, e.pos
        elif isinstance(b, Ptr) and isinstance(e, Ptr):
            cont, lo, hi = Ptr(b.cell, b.path), b.off or ZERO, e.off or ZERO
        else:
            I.note("range of %s" % type(b).__name__)
            return
        if isnum(lo) and isnum(hi):
            for i in range(int(lo.args[0]), int(hi.args[0])):
                body(I.index(cont, num(i)))
            return
        c = I.alloc(lo, "idx")
        I.loop("algo", loc, lambda: ilt(I.st.get(c), hi), lambda: body(I.index(cont, I.st.get(c))),
               lambda: I.store(Ptr(c), add(I.st.get(c), ONE)))

    # ------------------------------------------------------------ constructors
    def ctor(self, I, f, cn, typ, args, kind, loc):
        if kind in ("copy", "move") and len(args) == 1:
            v = self.val1(I, args[0])
            if cn in TRANSPARENT_PTR:
                return self.sptr(I, args[0])
            return v
        c = f["cls"]
        if cn == "Kokkos::View":
            return self.view_ctor(I, f, c, args, loc)
        if cn in ("Kokkos::complex", "std::complex"):
            if not args:
                return ZERO
            a = self.sc(I, args[0])
            if len(args) == 1:
                return a
            b = self.sc(I, args[1])
            return a if isnum(b) and b.args[0] == 0 else mk("cpx", a, b)
        if cn in ("std::vector", "std::list", "std::deque"):
            return self.vec_ctor(I, f, c, args, loc)
        if cn in ("std::map", "std::unordered_map"):
            return self.map_ctor(I, args, loc)
        if cn == "std::pair":
            if len(args) == 2:
                return Rec(c, {"first": self.byty(I, args[0]), "second": self.byty(I, args[1])})
            if len(args) == 1:
                return self.val(I, args[0])
            return self.default(I, cn, typ, c)
        if cn == "std::tuple":
            if not args:
                return self.default(I, cn, typ, c)
            ta = self.p.C[c]["targs"]
            ts = [x[1] for a in ta for x in (a[1] if a[0] == "p" else [a])]
            if len(args) == 1 and len(ts) != 1:
                return self.val(I, args[0])
            if len(args) == 1:
                v = self.val1(I, args[0])
                if isinstance(v, Rec) and set(v.f) == {"0"}:
                    return v
            return self.mktuple(I, args, ts)
        if cn in TRANSPARENT_PTR:
            return self.sptr(I, args[0]) if args else NULL
        if cn == "std::function":
            if not args:
                return NULL
            return self.fnval(I, args[0])
        if cn == "std::basic_string":
            if not args:
                return mk("str", "")
            v = self.val1(I, args[0])
            return v if isinstance(v, T) else mk("strof", I.fresh("s"))
        if cn in ("std::runtime_error", "std::logic_error", "std::invalid_argument", "std::domain_error", "std::out_of_range"):
            return Opq(I.fresh("exc"), cn)
        if cn.endswith("RangePolicy") and "MD" not in cn:
            a = [x for x in args]
            s = [self.val(I, x) for x in a]
            s = [x for x in s if isinstance(x, T)]
            return Rec(c, {"lo": s[-2] if len(s) >= 2 else ZERO, "hi": s[-1]})
        if cn.endswith("MDRangePolicy"):
            s = [self.val(I, x) for x in args]
            s = [x for x in s if isinstance(x, Vec)]
            return Rec(c, {"lo": s[0], "hi": s[1]})
        if cn == "Kokkos::LayoutStride":
            return Rec(c, {"a": Vec(items=[self.sc(I, x) for x in args])})
        if cn in ("std::atomic",):
            return self.val(I, args[0]) if args else mk("undef", "atomic")
        if cn in ("std::shared_future", "std::future"):
            return self.val1(I, args[0]) if args else NULL
        if cn == "std::reference_wrapper":
            return RefBox(args[0])
        if cn == "std::optional":
            return Rec(c, {"has": TRUE, "val": self.byty(I, args[0])}) if args else self.default(I, cn, typ, c)
        if cn == "std::basic_ofstream":
            I.event("io", ("open",), loc)
        if not args:
            d = self.default(I, cn, typ, c)
            if d is not None:
                return d
        return Opq(I.fresh("obj:" + cn), cn)

    def byty(self, I, a):
        return self.val1(I, a)

    def mktuple(self, I, args, ts=None):
        d = {}
        for i, a in enumerate(args):
            if ts is not None and i < len(ts) and self.p.ty(ts[i])["k"] in ("ref", "rref"):
                d[str(i)] = RefBox(a) if isinstance(a, (Ptr, PtrSel)) else a
            else:
                v = self.val1(I, a)
                d[str(i)] = v.p if False else v
        return Rec(None, d)

    def fnval(self, I, a):
        v = a
        if isinstance(v, (Ptr, PtrSel)):
            w = I.load(v)
            return w
        return v

    def sptr(self, I, a):
        """smart-pointer value out of a ref to one / a raw pointer / null"""
        if isinstance(a, (Ptr, PtrSel)):
            w = I.load(a)
            if isinstance(w, (Ptr, PtrSel, Null)) or (isinstance(w, Opq) and not isinstance(w, Ptr)):
                return w
            return a
        return a

    def vec_ctor(self, I, f, c, args, loc):
        et = self.p.C[c]["targs"][0][1]
        a = [x for x in args]
        if a:
            last = self.val1(I, a[-1])
            if isinstance(last, Opq) and last.cls == "std::allocator":
                a = a[:-1]
        if not a:
            return Vec(items=[])
        v0 = self.val1(I, a[0]) if not (len(a) >= 2 and isinstance(a[0], Ptr) and a[0].off is not None) else a[0]
        if len(a) == 1 and isinstance(v0, Vec):
            return v0
        if isinstance(v0, (It, Ptr)) and len(a) >= 2:
            e = self.val1(I, a[1]) if not (isinstance(a[1], Ptr) and a[1].off is not None) else a[1]
            return self.range_vec(I, v0, e)
        n = I.tconv(v0)
        fill = self.val1(I, a[1]) if len(a) > 1 else I.zero(et)
        if isnum(n) and n.args[0] <= 64:
            return Vec(items=[fill for _ in range(int(n.args[0]))])
        return Vec(n=n, body=fill)

    def range_vec(self, I, b, e):
        """vector from an iterator/pointer range"""
        if isinstance(b, It):
            src = self.val(I, b.cont)
            lo, hi = b.pos, e.pos
            if b.kind == "map":
                return Vec(kdom=src.dom, elem=Rec(None, {"first": self.keyrec(K), "second": src.s.get(K)})) if isinstance(src, Map) else Vec(n=I.fresh("n"), body=I.fresh("x"))
        else:
            src = I.load(Ptr(b.cell, b.path))
            lo, hi = b.off or ZERO, e.off or ZERO
            if isinstance(src, Arr) and isnum(lo) and lo.args[0] == 0 and len(src.ext) == 1:
                return Vec(n=hi, body=src.body)
        if isinstance(src, Vec) and isnum(lo) and lo.args[0] == 0 and src.size() is hi:
            return src
        if isinstance(src, Vec) and src.items is not None and isnum(lo) and isnum(hi):
            return Vec(items=src.items[int(lo.args[0]):int(hi.args[0])])
        n = sub(hi, lo)
        return Vec(n=n, body=I.vecget(src, add(IX0, lo)))

    def map_ctor(self, I, args, loc):
        if not args:
            return Map(None, {})
        v = self.val1(I, args[0])
        if isinstance(v, Map):
            return v
        if isinstance(v, Vec) and v.items is not None:      # initializer list
            d = {}
            for x in v.items:
                d[self.keyterm(I, x.f["first"])] = x.f["second"]
            return Map(None, d)
        if isinstance(v, (It, Ptr)):
            e = self.val1(I, args[1])
            w = self.range_vec(I, v, e)
            if w.kdom is not None:
                return Map(w.kdom, {K: w.elem.f["second"]})
            return Map(mk("vdom", w.n, mkmat_(w.body)), {K: Opq(mk("vlookup", w.n, mkmat_(w.body), K))})
        if isinstance(v, Opq):
            return Map(None, {})
        return Map(None, {})

    # ------------------------------------------------------------ views
    def view_ctor(self, I, f, c, args, loc):
        rank = self.rank_cls(c)
        if not args:
            return View(None, rank)
        a0 = args[0]
        v0 = self.val1(I, a0)
        if isinstance(v0, View):
            return View(v0.cell, rank, v0.slice)
        init = ZERO
        rest = args[1:]
        # pointer first: unmanaged
        if isinstance(a0, (Ptr, PtrSel)) and self.p.ty(f["params"][0][2])["k"] == "ptr" or isinstance(v0, (Ptr, PtrSel)):
            ptr = a0 if self.p.ty(f["params"][0][2])["k"] == "ptr" else v0
            lay = self.val(I, rest[0]) if rest else None
            if isinstance(lay, Rec) and "a" in lay.f:
                it = lay.f["a"].items
                ext = tuple(it[0::2][:rank])
                stride = tuple(it[1::2][:rank])
            else:
                ext = tuple(self.sc(I, x) for x in rest[:rank])
                stride = (ONE,) + ext[:1] if rank == 2 else (ONE,)
            return self.wrap(I, ptr, ext, stride, rank, loc)
        if isinstance(v0, Rec) and "noinit" in v0.f:
            init = v0.f["noinit"]
        if isinstance(v0, T) and v0.op == "num":
            rest = args
        ext = tuple(self.sc(I, x) for x in rest[:rank])
        if len(ext) < rank:
            I.note("view ctor")
            ext = ext + tuple(I.fresh("ext") for _ in range(rank - len(ext)))
        stride = (ONE,) + ext[:1] if rank == 2 else (ONE,)
        if rank > 2:
            stride = tuple(I.fresh("stride") for _ in ext)
        return View(I.alloc(Arr(ext, stride, init), "view"), rank)

    def wrap(self, I, ptr, ext, stride, rank, loc):
        """view over memory owned by someone else"""
        if isinstance(ptr, Ptr):
            a = I.load(Ptr(ptr.cell, ptr.path))
            sl = None
            for s in ptr.path:
                if isinstance(s, tuple) and s[0] == "slice":
                    sl = s[1]
            if isinstance(a, Arr):
                I.event("wrap", (ptr, ext, stride, a, sl), loc)
                if len(a.ext) != rank:
                    I.note("unmanaged view rank")
                return View(ptr.cell, rank, sl)
            if isinstance(a, Vec):
                w = I.absvec(a)
                return View(I.alloc(Arr(ext, stride, w.body if isinstance(w.body, T) else I.fresh("buf")), "vecview"), rank)
        I.note("unmanaged view over %s" % type(ptr).__name__)
        return View(I.alloc(Arr(ext, stride, mk("el", I.fresh("mem"), *IXS[:rank])), "mem"), rank)

    def arr(self, I, v):
        """(view) -> Arr content specialised to the view's slice"""
        v = self.val(I, v)
        if isinstance(v, View) and v.cell is not None:
            a = I.st.get(v.cell)
            if isinstance(a, Arr):
                if v.slice is not None:
                    m = {K: v.slice}
                    return Arr(tuple(subst(x, m) for x in a.ext), tuple(subst(x, m) for x in a.stride), subst(a.body, m))
                return a
        if isinstance(v, Choice):
            x, y = self.arr(I, v.a), self.arr(I, v.b)
            return I.vite(v.c, x, y)
        I.note("array of %s" % type(v).__name__)
        n = I.fresh("arr")
        return Arr((mk("dim", n, 0), mk("dim", n, 1)), (ONE, mk("dim", n, 0)), mk("el", n, IX0, IX1))

    def setarr(self, I, v, body):
        v = self.val(I, v)
        if isinstance(v, View) and v.cell is not None:
            a = I.st.get(v.cell)
            if isinstance(a, Arr):
                if v.slice is not None:
                    body = tite(ieq(K, v.slice), body, a.body)
                I.st = I.st.set(v.cell, Arr(a.ext, a.stride, body))
                return
        I.note("array store")

    # ------------------------------------------------------------ virtual (backend) calls
    def virtual(self, I, fid, f, o, v, args, loc):
        if self.backend is not None:
            r = self.backend.virtual(self, I, fid, f, o, v, args, loc)
            if r is not None:
                return r[0]
        I.note("virtual call %s" % self.p.sn[fid])
        I.event("virtual", (self.p.sn[fid],), loc)
        return I.fresh("virt")

    # ------------------------------------------------------------ calls
    def call(self, I, fid, f, name, args, this, loc, typ=None):
        if f.get("ctor"):
            r = self.ctor(I, f, self.p.C[f["cls"]]["name"], None, args, f["ctor"], loc)
            if this is not None:
                I.store(this, r)
            return r
        short = f["short"]
        if f.get("cls") is not None and f["cls"] >= 0:
            cn = self.p.C[f["cls"]]["name"]
            h = getattr(self, "m_" + cn.replace("std::", "").replace("Kokkos::", "k_").replace("::", "_").replace("__", "_").strip("_"), None)
            if h is not None:
                r = h(I, f, short, args, this, loc)
                if r is not NotImplemented:
                    return r
        else:
            base = name.split("::")[-1]
            h = getattr(self, "f_" + base, None)
            if h is not None:
                r = h(I, f, args, loc)
                if r is not NotImplemented:
                    return r
            if base in MATH1 and len(args) == 1:
                return self.math1(I, base, args)
        if short.startswith("operator") and not short.startswith("operator "):
            r = self.oper(I, f, short, args if this is None else [this] + list(args), loc)
            if r is not NotImplemented:
                return r
        return self.opaque(I, f, name, args, this, loc)

    def opaque(self, I, f, name, args, this, loc):
        rt = f["ret"]
        k = self.p.ty(rt)["k"]
        if name.startswith("nlohmann") or "json" in name or "std::basic_" in name or name.startswith("std::chrono") \
                or name.split("::")[-1] in ("setw", "setprecision", "fixed", "left", "right", "scientific", "flush", "endl"):
            pass
        else:
            I.note("external %s" % name)
        if k == "void":
            return None
        if k in ("ref", "rref"):
            if this is not None and isinstance(this, (Ptr, PtrSel)):
                return this
            return Ptr(I.alloc(Opq(I.fresh(name.split("::")[-1])), "ext"))
        if k == "bool":
            return atom(I.fresh(name.split("::")[-1]))
        if k in ("int", "flt", "enum", "cpx"):
            ts = [self.val(I, a) for a in args]
            if all(isinstance(x, T) for x in ts):
                return mk("fn:" + name, *ts)
            return I.fresh(name.split("::")[-1])
        return Opq(I.fresh(name.split("::")[-1]), self.p.cname(rt))

    # arithmetic operators on class types
    def oper(self, I, f, short, args, loc):
        op = short[len("operator"):]
        vs = [self.val1(I, a) for a in args]
        if any(isinstance(v, It) for v in vs):
            if op == "*" and len(vs) == 1:
                return self.itderef(I, vs[0])
            if op == "->":
                return self.itderef(I, vs[0])
            if op in ("++", "--"):
                n = self.itadv(I, vs[0], num(1 if op == "++" else -1))
                I.store(args[0], n)
                return args[0] if len(args) == 1 else vs[0]
            if op in ("+=", "-="):
                n = self.itop(I, op[0], vs[0], vs[1])
                I.store(args[0], n)
                return args[0]
            if op == "[]":
                return self.itderef(I, self.itop(I, "+", vs[0], vs[1]))
            if op in ("=",):
                I.store(args[0], vs[1])
                return args[0]
            return self.itop(I, op, vs[0], vs[1])
        if op in ("<<", ">>") and len(args) == 2:
            if not isinstance(vs[0], T) and not isinstance(vs[0], B):
                I.event("stream", (vs[0], vs[1]), loc)
                return args[0]
        if op == "=" and len(args) == 2:
            v = vs[1]
            I.store(args[0], v)
            return args[0]
        ws = [self.val(I, a) for a in args]
        if all(isinstance(v, (T, B)) for v in ws):
            if len(ws) == 2 and all(isinstance(w, T) and w.op in ("str", "strcat", "strof") or isinstance(w, T) for w in ws) and any(w.op in ("str", "strcat", "strof") for w in ws if isinstance(w, T)):
                if op == "+":
                    return mk("strcat", *ws)
                if op in ("==", "!="):
                    r = self.streq(*ws)
                    return r if op == "==" else bnot(r)
            if len(ws) == 1:
                if op == "-":
                    return neg(I.tconv(ws[0]))
                if op == "+":
                    return ws[0]
            if len(ws) == 2 and op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="):
                return self.arith(I, op, ws[0], ws[1])
            if len(ws) == 2 and op in ("+=", "-=", "*=", "/="):
                I.store(args[0], self.arith(I, op[0], ws[0], ws[1]))
                return args[0]
        if op in ("==", "!=") and len(ws) == 2:
            if isinstance(ws[0], Rec) and isinstance(ws[1], Rec):
                g = TRUE
                for k in ws[0].f:
                    x, y = ws[0].f[k], ws[1].f.get(k)
                    if isinstance(x, T) and isinstance(y, T):
                        g = band(g, ieq(x, y))
                    else:
                        g = band(g, atom(I.fresh("eq")))
                return g if op == "==" else bnot(g)
            if isinstance(ws[0], (Null, Ptr)) or isinstance(ws[1], (Null, Ptr)):
                return I.ptrop(op, ws[0], ws[1])
            return atom(I.fresh("eq"))
        return NotImplemented

    def streq(self, a, b):
        if a.op == "str" and b.op == "str":
            return TRUE if a is b else FALSE
        return ieq(a, b)

    def arith(self, I, op, a, b):
        a, b = I.tconv(a), I.tconv(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b)
        return {"==": lambda: feq(a, b), "!=": lambda: bnot(feq(a, b)), "<": lambda: flt(a, b), ">": lambda: flt(b, a),
                "<=": lambda: fle(a, b), ">=": lambda: fle(b, a)}[op]()

    def math1(self, I, n, args):
        a = self.sc(I, args[0])
        if n == "fabs":
            n = "abs"
        if isnum(a):
            if n == "abs":
                return num(abs(a.args[0]))
            if n == "sqrt" and a.args[0] in (0, 1, 4):
                return num(int(math.isqrt(int(a.args[0]))))
            if n == "exp" and a.args[0] == 0:
                return ONE
        return mk(n, a)

    # ---- free functions
    def f_abs(self, I, f, a, loc):
        return self.math1(I, "abs", a)

    def f_pow(self, I, f, a, loc):
        x, y = self.sc(I, a[0]), self.sc(I, a[1])
        if isnum(y) and y.args[0].denominator == 1 and 0 <= y.args[0] <= 6:
            r = ONE
            for _ in range(int(y.args[0])):
                r = mul(r, x)
            return r
        return mk("pow", x, y)

    def f_real(self, I, f, a, loc):
        x = self.sc(I, a[0])
        return mkreal(x)

    def f_imag(self, I, f, a, loc):
        return mkimag(self.sc(I, a[0]))

    def f_conj(self, I, f, a, loc):
        return mkconj(self.sc(I, a[0]))

    def f_norm(self, I, f, a, loc):
        x = self.sc(I, a[0])
        return mkreal(mul(x, mkconj(x)))

    def f_isnan(self, I, f, a, loc):
        x = self.sc(I, a[0])
        return bnot(feq(x, x)) if not isnum(x) else FALSE

    def f_isfinite(self, I, f, a, loc):
        x = self.sc(I, a[0])
        return TRUE if isnum(x) else band(feq(x, x), flt(mk("abs", x), mk("const", "inf")))

    def f_isinf(self, I, f, a, loc):
        x = self.sc(I, a[0])
        return FALSE if isnum(x) else feq(mk("abs", x), mk("const", "inf"))

    def f_min(self, I, f, a, loc):
        if len(a) < 2:
            return NotImplemented
        return self._minmax(I, f, a, True)

    def f_max(self, I, f, a, loc):
        if len(a) < 2:
            return NotImplemented
        return self._minmax(I, f, a, False)

    def _minmax(self, I, f, a, mn):
        x, y = self.val(I, a[0]), self.val(I, a[1])
        k = self.p.ty(self.p.strip_ref(f["ret"]))["k"]
        x, y = I.tconv(x), I.tconv(y)
        lt = flt if k == "flt" else ilt
        c = lt(y, x) if mn else lt(x, y)
        r = tite(c, y, x)
        return Ptr(I.alloc(r, "minmax")) if self.p.ty(f["ret"])["k"] in ("ref", "rref") else r

    f_fmin = f_min
    f_fmax = f_max

    def f_clamp(self, I, f, a, loc):
        v, lo, hi = [self.sc(I, x) for x in a[:3]]
        k = self.p.ty(self.p.strip_ref(f["ret"]))["k"]
        lt = flt if k == "flt" else ilt
        return Ptr(I.alloc(tite(lt(v, lo), lo, tite(lt(hi, v), hi, v)), "clamp"))

    def f_move(self, I, f, a, loc):
        if len(a) == 1:
            return a[0]
        return NotImplemented

    f_forward = f_move
    f_as_const = f_move

    def f_ref(self, I, f, a, loc):
        return RefBox(a[0])

    f_cref = f_ref

    def f_swap(self, I, f, a, loc):
        if len(a) != 2:
            return NotImplemented
        x, y = I.load(a[0]), I.load(a[1])
        I.store(a[0], y)
        I.store(a[1], x)
        return None

    def f_exchange(self, I, f, a, loc):
        o = I.load(a[0])
        I.store(a[0], self.val1(I, a[1]))
        return o

    def f_get(self, I, f, a, loc):
        ta = f.get("targs") or []
        if not ta or ta[0][0] != "i":
            return NotImplemented
        i = int(ta[0][1])
        return self.tupget(I, a[0], i)

    def tupget(self, I, p, i):
        v = self.val(I, p)
        if not isinstance(p, (Ptr, PtrSel)):
            p = Ptr(I.alloc(v, "tuple"))
        if isinstance(v, Rec):
            if "first" in v.f and "second" in v.f:
                q = I.sub(p, ("first", "second")[i])
            else:
                q = I.sub(p, str(i))
            w = I.load(q)
            return w.p if isinstance(w, RefBox) else q
        if isinstance(v, Vec):
            return I.index(p, num(i))
        if isinstance(v, Choice):
            return PtrSel(v.c, self.tupget(I, Ptr(I.alloc(v.a, "t")), i), self.tupget(I, Ptr(I.alloc(v.b, "t")), i))
        I.note("get<> of %s" % type(v).__name__)
        return Ptr(I.alloc(I.fresh("get"), "get"))

    def f_make_tuple(self, I, f, a, loc):
        d = {}
        for i, x in enumerate(a):
            d[str(i)] = self.val1(I, x)
        return Rec(None, d)

    def f_tie(self, I, f, a, loc):
        return Rec(None, {str(i): RefBox(x) for i, x in enumerate(a)})

    f_forward_as_tuple = f_tie

    def f_make_pair(self, I, f, a, loc):
        return Rec(self.p.cls_of(f["ret"]), {"first": self.val1(I, a[0]), "second": self.val1(I, a[1])})

    def f_tuple_cat(self, I, f, a, loc):
        d = {}
        for x in a:
            v = self.val(I, x)
            if not isinstance(v, Rec):
                I.note("tuple_cat of %s" % type(v).__name__)
                return Opq(I.fresh("tuple"))
            for k in sorted(v.f, key=lambda s: (len(s), s)):
                d[str(len(d))] = v.f[k]
        return Rec(None, d)

    def f_apply(self, I, f, a, loc):
        v = self.val(I, a[1])
        ps = [self.tupget(I, a[1], i) for i in range(len(v.f))]
        return I.invoke(a[0], ps, loc)

    def f_invoke(self, I, f, a, loc):
        return I.invoke(a[0], a[1:], loc)

    def f_make_shared(self, I, f, a, loc):
        t = (f.get("targs") or [[None, None]])[0]
        c = self.p.cls_of(t[1]) if t[0] == "t" else None
        if c is None:
            return Ptr(I.alloc(self.val1(I, a[0]) if a else I.zero(t[1]), "heap"))
        v = self.make(I, c, t[1], a, loc)
        return Ptr(I.alloc(v, "heap:" + self.p.C[c]["name"]))

    f_make_unique = f_make_shared

    def make(self, I, c, t, args, loc):
        """construct class c from forwarded arguments"""
        C = self.p.C[c]
        cands = [i for i, g in enumerate(self.p.F) if g.get("ctor") and g.get("cls") == c and len(g["params"]) >= len(args)]
        if len(args) == 1:
            v = self.val1(I, args[0])
            if isinstance(v, Rec) and v.cls == c:
                return v
        best = [i for i in cands if len(self.p.F[i]["params"]) == len(args) and (self.p.F[i].get("body") is not None or not C["repo"])]
        if len(best) > 1:
            best = [i for i in best if self.p.F[i]["ctor"] not in ("copy", "move")] or best
        if best:
            g = self.p.F[best[0]]
            if g.get("body") is not None or g.get("inits"):
                out = []
                for (vid, n, ty), a in zip(g["params"], args):
                    if self.p.ty(ty)["k"] in ("ref", "rref", "ptr"):
                        out.append(a)
                    else:
                        out.append(self.val1(I, a))
                return I.construct(best[0], t, out, loc)
            return self.ctor(I, g, C["name"], t, args, g["ctor"], loc)
        if not args:
            return I.default(t)
        I.note("construct %s" % C["name"])
        return Opq(I.fresh("obj:" + C["name"]), C["name"])

    def f_bind(self, I, f, a, loc):
        args = []
        for x in a[1:]:
            v = x.p if isinstance(x, RefBox) else self.val1(I, x)
            if isinstance(v, RefBox):
                v = v.p
            args.append(v)
        fn = a[0]
        if isinstance(fn, (Ptr, PtrSel)):
            fn = I.load(fn)
        return Bound(fn, args)

    def f_async(self, I, f, a, loc):
        pol = self.val(I, a[0])
        rest = a
        lazy = False
        if isinstance(pol, T):
            rest = a[1:]
            lazy = isnum(pol) and pol.args[0] == 2
        fn = rest[0]
        if isinstance(fn, (Ptr, PtrSel)):
            fn = I.load(fn)
        args = [self.val1(I, x) for x in rest[1:]]
        b = Bound(fn, args) if args else fn
        c = I.alloc(Rec(None, {"done": FALSE, "val": mk("undef", "future"), "fn": b}), "future")
        fu = Fut(c)
        I.event("async", (lazy,), loc)
        if not lazy:
            self.force(I, fu, loc)
        return fu

    def force(self, I, fu, loc):
        fu = self.val1(I, fu) if isinstance(fu, (Ptr, PtrSel)) else fu
        if isinstance(fu, Choice):
            return PtrSel(fu.c, self.force(I, fu.a, loc), self.force(I, fu.b, loc))
        if not isinstance(fu, Fut):
            I.note("get() of %s" % type(fu).__name__)
            return Ptr(I.alloc(I.fresh("future"), "future"))
        r = I.st.get(fu.cell)
        if r.f["done"] is not TRUE:
            v = I.invoke(r.f["fn"], [], loc)
            if isinstance(v, (Ptr, PtrSel)):
                v = I.load(v)
            r = I.st.get(fu.cell)
            I.st = I.st.set(fu.cell, Rec(None, {"done": TRUE, "val": v if v is not None else ZERO, "fn": r.f["fn"]}))
        return Ptr(fu.cell, ("val",))

    def f_call_once(self, I, f, a, loc):
        I.invoke(a[1], a[2:], loc)
        return None

    def f_accumulate(self, I, f, a, loc):
        init = self.val1(I, a[2])
        c = I.alloc(init, "acc")
        op = a[3] if len(a) > 3 else None

        def body(e):
            if op is None:
                v = self.arith(I, "+", I.st.get(c), self.val(I, e))
            else:
                v = I.invoke(op, [I.st.get(c), e], loc)
                v = self.val1(I, v)
            I.store(Ptr(c), v)
        self.foreach(I, a[0], a[1], body, loc)
        r = I.st.get(c)
        rt = f["ret"]
        return r

    f_reduce = f_accumulate

    def f_for_each(self, I, f, a, loc):
        self.foreach(I, a[0], a[1], lambda e: I.invoke(a[2], [e], loc), loc)
        return a[2]

    def f_transform(self, I, f, a, loc):
        def fn(e):
            v = I.invoke(a[3], [e], loc)
            return self.val1(I, v)
        return self.mapto(I, a[0], a[1], a[2], fn, loc)

    def f_copy(self, I, f, a, loc):
        return self.mapto(I, a[0], a[1], a[2], lambda e: self.elemval(I, e), loc)

    def elemval(self, I, e):
        v = self.val1(I, e)
        if isinstance(v, Rec) and isinstance(v.f.get("second"), RefBox):
            v = Rec(v.cls, {"first": v.f["first"], "second": I.load(v.f["second"].p)})
        return v

    def mapto(self, I, b, e, d, fn, loc):
        b, e = self.val1(I, b) if not (isinstance(b, Ptr) and b.off is not None) else b, e
        if not (isinstance(e, Ptr) and e.off is not None):
            e = self.val1(I, e)
        dst = d if isinstance(d, Ptr) and d.off is not None else self.val1(I, d)
        if isinstance(dst, It) and dst.kind == "vec":
            dc, do = dst.cont, dst.pos
        elif isinstance(dst, Ptr):
            dc, do = Ptr(dst.cell, dst.path), dst.off or ZERO
        else:
            # inserter: evaluate for effect
            self.foreach(I, b, e, lambda x: fn(x), loc)
            I.note("algorithm destination")
            return d
        ismap = isinstance(b, It) and b.kind == "map"
        src = self.val(I, b.cont) if isinstance(b, It) else None
        if ismap or (isinstance(src, Vec) and src.kdom is not None):
            # one element per k-point, contiguous from do
            box = {}

            def body(x):
                box["v"] = fn(x)
            self.foreach(I, b, e, body, loc)
            dom = src.dom if ismap else src.kdom
            dv = I.load(dc)
            n = dv.size() if isinstance(dv, Vec) else None
            if isnum(do) and do.args[0] == 0 and (n is None or n is mk("count", dom)):
                I.store(dc, Vec(kdom=dom, elem=box.get("v")))
            else:
                I.store(dc, Vec(n=n if n is not None else I.fresh("n"), body=mk("kplace", dom, do, I.fresh("blk"))))
                I.event("kplace", (dom, do, box.get("v")), loc)
            return d
        lo = b.pos if isinstance(b, It) else (b.off or ZERO)
        if isinstance(b, Ptr):
            scont = Ptr(b.cell, b.path)
            hi = e.off or ZERO
        else:
            scont = b.cont
            hi = e.pos
        srcv = I.load(scont)
        if isnum(lo) and isnum(hi):
            for i in range(int(lo.args[0]), int(hi.args[0])):
                I.store(I.index(dc, add(do, num(i - int(lo.args[0])))), fn(I.index(scont, num(i))))
        else:
            c = I.alloc(lo, "idx")

            def body():
                i = I.st.get(c)
                v = fn(I.index(scont, i))
                I.store(I.index(dc, add(do, sub(i, lo))), v)
            I.loop("algo", loc, lambda: ilt(I.st.get(c), hi), body, lambda: I.store(Ptr(c), add(I.st.get(c), ONE)))
        r = add(do, sub(hi, lo))
        return It("vec", dc, r) if isinstance(dst, It) else Ptr(dc.cell, dc.path, r)

    def f_partial_sum(self, I, f, a, loc):
        b, e = self.val1(I, a[0]), self.val1(I, a[1])
        d = a[2] if isinstance(a[2], Ptr) and a[2].off is not None else self.val1(I, a[2])
        src = self.val(I, b.cont)
        dc, do = (d.cont, d.pos) if isinstance(d, It) else (Ptr(d.cell, d.path), d.off or ZERO)
        dv = self.val(I, dc)
        if isinstance(src, Vec) and isinstance(dv, Vec) and isinstance(I.absvec(dv).body, T) and isinstance(I.absvec(src).body, T):
            sv = I.absvec(src)
            v = I.fresh("j")
            # dst[do+i] = sum_{j=b}^{b+i} src[j]
            s = bindsum("i", b.pos, add(add(sub(IX0, do), b.pos), ONE), v, subst(sv.body, {IX0: v}))
            c = band(bnot(ilt(IX0, do)), ilt(IX0, add(do, sub(e.pos, b.pos))))
            av = I.absvec(dv)
            I.store(dc, Vec(n=av.n, body=tite(c, s, av.body)))
            return d
        return NotImplemented

    def f_fill(self, I, f, a, loc):
        self.foreach(I, a[0], a[1], lambda e: I.store(e, self.val1(I, a[2])), loc)
        return None

    def f_begin(self, I, f, a, loc):
        v = self.val(I, a[0])
        if isinstance(v, Map):
            return It("map", a[0], "begin")
        return It("vec", a[0], ZERO)

    def f_end(self, I, f, a, loc):
        v = self.val(I, a[0])
        if isinstance(v, Map):
            return It("map", a[0], "end")
        return It("vec", a[0], v.size() if isinstance(v, Vec) else I.fresh("n"))

    f_cbegin, f_cend = f_begin, f_end

    def f_to_string(self, I, f, a, loc):
        v = self.val(I, a[0])
        return mk("tostr", v) if isinstance(v, T) else mk("strof", I.fresh("s"))

    def f_getenv(self, I, f, a, loc):
        return Opq(mk("env", self.val1(I, a[0])))

    def f_strcmp(self, I, f, a, loc):
        x, y = [self.val1(I, v) for v in a]
        x = x.t if isinstance(x, Opq) else x
        y = y.t if isinstance(y, Opq) else y
        return mk("strcmp", x, y) if isinstance(x, T) and isinstance(y, T) else I.fresh("strcmp")

    def f_printf(self, I, f, a, loc):
        I.event("io", ("printf",), loc)
        return ZERO

    def f_puts(self, I, f, a, loc):
        I.event("io", ("puts",), loc)
        return ZERO

    def f_remove(self, I, f, a, loc):
        if len(a) != 1:
            return NotImplemented
        I.event("io", ("remove",), loc)
        return ZERO

    def f_abort(self, I, f, a, loc):
        I.event("abort", (), loc)
        I.pc = None
        raise Dead()

    f_exit = f_abort
    f_terminate = f_abort
    f_MPI_Abort = f_abort

    # ---- Kokkos
    def f_initialize(self, I, f, a, loc):
        I.event("kokkos", ("initialize",), loc)
        return None

    def f_finalize(self, I, f, a, loc):
        I.event("kokkos", ("finalize",), loc)
        return None

    def f_fence(self, I, f, a, loc):
        return None

    def f_view_alloc(self, I, f, a, loc):
        for x in a:
            v = self.val1(I, x)
            s = getattr(v, "t", None)
            if isinstance(v, Opq) or isinstance(v, Rec):
                pass
        for (vid, n, t) in f["params"]:
            if "WithoutInitializing" in self.p.ty(self.p.strip_ref(t))["s"]:
                return Rec(None, {"noinit": mk("undef", "uninitialised view")})
        return Rec(None, {"noinit": ZERO})

    def f_deep_copy(self, I, f, a, loc):
        vs = [x for x in a if isinstance(self.val(I, x), View)]
        if len(vs) >= 2:
            d, s = vs[0], vs[1]
        elif vs:
            d = vs[0]
            rest = a[[i for i, x in enumerate(a) if x is d][0] + 1:]
            s = rest[0]
        else:
            d, s = a[0], a[1]
        sv = self.val(I, s)
        dv = self.val(I, d)
        if isinstance(sv, (T,)) and isinstance(dv, View):
            self.setarr(I, d, sv)
            return None
        src = self.arr(I, s)
        if isinstance(dv, View) and dv.cell is not None:
            da = self.arr(I, d)
            I.event("deep_copy", (da.ext, src.ext, dv, sv), loc)
            self.setarr(I, d, src.body)
        else:
            I.note("deep_copy into %s" % type(dv).__name__)
        return None

    def viewarg(self, I, a):
        for x in a:
            v = self.val(I, x)
            if isinstance(v, View):
                return v
        return self.val(I, a[0])

    def f_create_mirror_view(self, I, f, a, loc):
        return self.viewarg(I, a)      # host build: same memory

    def f_create_mirror_view_and_copy(self, I, f, a, loc):
        # same memory space: Kokkos returns the view itself (no allocation, no copy)
        return self.viewarg(I, a)

    def f_create_mirror(self, I, f, a, loc):
        v = self.viewarg(I, a)
        x = self.arr(I, v)
        return View(I.alloc(Arr(x.ext, (ONE,) + x.ext[:1] if len(x.ext) == 2 else (ONE,), ZERO), "mirror"), v.rank)

    def f_subview(self, I, f, a, loc):
        I.note("subview")
        return Opq(I.fresh("subview"))

    def pargs(self, I, a):
        """strip the optional label of a parallel construct"""
        v = self.val1(I, a[0])
        if isinstance(v, T) and v.op in ("str", "strcat", "strof"):
            a = a[1:]
        return a

    def ranges(self, I, pol):
        v = self.val(I, pol)
        if isinstance(v, T):
            return [(ZERO, v)]
        if isinstance(v, Rec) and "lo" in v.f:
            lo, hi = v.f["lo"], v.f["hi"]
            if isinstance(lo, Vec):
                return list(zip(lo.items, hi.items))
            return [(lo, hi)]
        I.note("execution policy")
        return None

    def f_parallel_for(self, I, f, a, loc):
        a = self.pargs(I, a)
        rs = self.ranges(I, a[0])
        if rs is None:
            return None
        fn = a[1]
        self.nest(I, rs, [], lambda ix: I.invoke(fn, ix, loc), loc)
        return None

    def f_parallel_reduce(self, I, f, a, loc):
        a = self.pargs(I, a)
        rs = self.ranges(I, a[0])
        fn, res = a[1], a[2]
        rv = self.val1(I, res)
        red = rv if isinstance(rv, Rec) and "redkind" in rv.f else None
        c = I.alloc(ZERO, "lsum")
        self.nest(I, rs, [], lambda ix: I.invoke(fn, list(ix) + [Ptr(c)], loc), loc)
        v = I.st.get(c)
        if isinstance(rv, View):
            self.setarr(I, res, v)
        elif isinstance(res, (Ptr, PtrSel)):
            I.store(res, v)
        else:
            I.note("parallel_reduce target")
        return None

    def nest(self, I, rs, ix, body, loc):
        if not rs:
            body(ix)
            return
        lo, hi = rs[0]
        c = I.alloc(lo, "pidx")
        I.loop("par", loc, lambda: ilt(I.st.get(c), hi), lambda: self.nest(I, rs[1:], ix + [I.st.get(c)], body, loc),
               lambda: I.store(Ptr(c), add(I.st.get(c), ONE)))

    # ---- BLAS / LAPACK
    def mem(self, I, p):
        """resolve a raw array pointer: (View, Arr) or None"""
        if isinstance(p, PtrSel):
            x, y = self.mem(I, p.a), self.mem(I, p.b)
            if x and y:
                return None
            return None
        if isinstance(p, Ptr):
            a = I.load(Ptr(p.cell, p.path))
            sl = None
            for s in p.path:
                if isinstance(s, tuple) and s[0] == "slice":
                    sl = s[1]
            if isinstance(a, Arr) and (p.off is None or (isnum(p.off) and p.off.args[0] == 0)):
                v = View(p.cell, len(a.ext), sl)
                return v, self.arr(I, v)
        return None

    def status(self, I, name, loc, extra=()):
        self.nstat += 1
        s = mk("status", name, I.p.loc(loc) if isinstance(loc, int) else str(loc), self.nstat)
        I.event("status", (s, name) + tuple(extra), loc)
        return s

    def f_cblas_zgemm(self, I, f, a, loc):
        order, ta, tb, m, n, k = [self.sc(I, x) for x in a[:6]]
        alpha, lda, ldb, beta, ldc = self.sc(I, a[6]), self.sc(I, a[8]), self.sc(I, a[10]), self.sc(I, a[11]), self.sc(I, a[13])
        return self.gemm(I, order, ta, tb, m, n, k, alpha, a[7], lda, a[9], ldb, beta, a[12], ldc, loc)

    f_cblas_zgemm3m = f_cblas_zgemm
    f_cblas_dgemm = f_cblas_zgemm

    def gemm(self, I, order, ta, tb, m, n, k, alpha, A, lda, B_, ldb, beta, C_, ldc, loc):
        rs = [self.mem(I, x) for x in (A, B_, C_)]
        if any(r is None for r in rs):
            I.note("gemm operand")
            I.event("gemm", None, loc)
            return None
        (va, aa), (vb, ab), (vc, ac) = rs
        I.event("gemm", {"order": order, "ta": ta, "tb": tb, "m": m, "n": n, "k": k, "alpha": alpha, "beta": beta, "lda": lda, "ldb": ldb, "ldc": ldc,
                         "A": aa, "B": ab, "C": ac, "va": va, "vb": vb, "vc": vc}, loc)
        # leading dimension different from the operand's own column stride: not the same matrix
        Am = matof(aa, lda, 2)
        Bm = matof(ab, ldb, 2)
        p = mk("el", mk("mm", tcode(ta), tcode(tb), k, Am, Bm), IX0, IX1)
        old = ac.body
        if isnum(beta) and beta.args[0] == 0:
            r = mul(alpha, p)
        else:
            r = add(mul(alpha, p), mul(beta, old))
        g = TRUE
        if m is not ac.ext[0]:
            g = band(g, ilt(IX0, m))
        if n is not ac.ext[1]:
            g = band(g, ilt(IX1, n))
        r = tite(g, r, old)
        if ldc is not ac.stride[1]:
            r = mk("el", mk("badld", mkmat(r, 2), ldc, ac.stride[1]), IX0, IX1)
        self.setarr(I, vc, r)
        return None

    def f_LAPACKE_zheevd(self, I, f, a, loc):
        lay, jobz, uplo, n, lda = self.sc(I, a[0]), self.sc(I, a[1]), self.sc(I, a[2]), self.sc(I, a[3]), self.sc(I, a[5])
        ra = self.mem(I, a[4])
        rw = self.mem(I, a[6])
        s = self.status(I, f["short"], loc)
        if ra is None or rw is None:
            I.note("eigh operand")
            return s
        va, aa = ra
        vw, aw = rw
        I.event("eigh", {"layout": lay, "jobz": jobz, "uplo": uplo, "n": n, "lda": lda, "A": aa, "va": va, "w": aw, "vw": vw}, loc)
        M = matof(aa, lda, 2)
        self.setarr(I, va, mk("el", mk("eigvec", n, uplo, jobz, lay, M), IX0, IX1))
        self.setarr(I, vw, mk("el", mk("eigval", n, uplo, lay, M), IX0))
        return s

    f_LAPACKE_zheev = f_LAPACKE_zheevd

    def f_LAPACKE_zpotrf(self, I, f, a, loc):
        uplo, n, lda = self.sc(I, a[1]), self.sc(I, a[2]), self.sc(I, a[4])
        r = self.mem(I, a[3])
        s = self.status(I, f["short"], loc)
        if r is None:
            I.note("potrf operand")
            return s
        v, x = r
        I.event("potrf", {"uplo": uplo, "n": n, "lda": lda, "A": x}, loc)
        self.setarr(I, v, mk("el", mk("chol", uplo, n, matof(x, lda, 2)), IX0, IX1))
        return s

    def f_LAPACKE_zpotrs(self, I, f, a, loc):
        lay, uplo, n, nrhs, lda, ldb = self.sc(I, a[0]), self.sc(I, a[1]), self.sc(I, a[2]), self.sc(I, a[3]), self.sc(I, a[5]), self.sc(I, a[7])
        ra, rb = self.mem(I, a[4]), self.mem(I, a[6])
        s = self.status(I, f["short"], loc)
        if ra is None or rb is None:
            I.note("potrs operand")
            return s
        A = matof(ra[1], lda, 2)
        Bm = matof(rb[1], ldb, 2)
        I.event("potrs", {"uplo": uplo, "n": n, "nrhs": nrhs, "A": ra[1], "B": rb[1]}, loc)
        if A.op == "chol" and A.args[0] is uplo and A.args[1] is n:
            X = mk("solve", n, uplo, A.args[2], Bm)
        else:
            X = mk("potrs", uplo, n, A, Bm)
        g = TRUE
        if nrhs is not rb[1].ext[1]:
            g = ilt(IX1, nrhs)
        if n is not rb[1].ext[0]:
            g = band(g, ilt(IX0, n))
        self.setarr(I, rb[0], tite(g, mk("el", X, IX0, IX1), rb[1].body))
        return s

    def f_LAPACKE_zgetrf(self, I, f, a, loc):
        r = self.mem(I, a[3])
        s = self.status(I, f["short"], loc)
        if r is not None:
            self.setarr(I, r[0], mk("el", mk("lu", matof(r[1], self.sc(I, a[4]), 2)), IX0, IX1))
        return s

    def f_LAPACKE_zgetrs(self, I, f, a, loc):
        ra, rb = self.mem(I, a[4]), self.mem(I, a[7])
        s = self.status(I, f["short"], loc)
        if ra is not None and rb is not None:
            A = matof(ra[1], self.sc(I, a[5]), 2)
            Bm = matof(rb[1], self.sc(I, a[8]), 2)
            X = mk("solve", self.sc(I, a[2]), num(0), A.args[0], Bm) if A.op == "lu" else mk("getrs", A, Bm)
            self.setarr(I, rb[0], mk("el", X, IX0, IX1))
        return s

    # ---- MPI
    def comm(self, I, v):
        """communicator identity as a term"""
        if isinstance(v, Ptr):
            if not v.path:
                return mk("comm", I.cellname.get(v.cell, "cell%d" % v.cell))
            w = I.load(v)
            return self.comm(I, w)
        if isinstance(v, PtrSel):
            return tite(v.c, self.comm(I, v.a), self.comm(I, v.b))
        if isinstance(v, Null):
            return mk("comm", "NULL")
        if isinstance(v, Opq):
            return v.t
        if isinstance(v, T):
            return v
        return I.fresh("comm")

    def coll(self, I, kind, comm, data, loc):
        I.event("coll", {"kind": kind, "comm": comm, "data": data, "kdepth": I.kdepth}, loc)

    def f_MPI_Comm_size(self, I, f, a, loc):
        c = self.comm(I, a[0])
        I.store(a[1], commfn("commsize", c))
        return self.status(I, f["short"], loc)

    def f_MPI_Comm_rank(self, I, f, a, loc):
        c = self.comm(I, a[0])
        I.store(a[1], commfn("commrank", c))
        return self.status(I, f["short"], loc)

    def f_MPI_Comm_compare(self, I, f, a, loc):
        x, y = self.comm(I, a[0]), self.comm(I, a[1])
        I.store(a[2], tite(ieq(x, y), ZERO, mk("commcmp", x, y)))
        return self.status(I, f["short"], loc)

    def f_MPI_Barrier(self, I, f, a, loc):
        self.coll(I, "barrier", self.comm(I, a[0]), None, loc)
        return self.status(I, f["short"], loc)

    def f_MPI_Allreduce(self, I, f, a, loc):
        v = self.val(I, a[0])
        op, c, ty, cnt = self.comm(I, a[4]), self.comm(I, a[5]), self.comm(I, a[3]), self.sc(I, a[2])
        src = a[0]
        if isinstance(v, T) and v.op == "const":      # MPI_IN_PLACE
            src = a[1]
            v = self.val(I, a[1])
        self.coll(I, "allreduce", c, {"op": op, "type": ty, "count": cnt, "value": v, "srcloc": loc, "fun": I.frames[-1].fid if I.frames else None}, loc)
        if isinstance(v, T):
            x = mk("allreduce", op, c, v)
            if c.op == "comm" and str(c.args[0]).endswith("comm_self"):
                x = v
            I.store(a[1], x)
        else:
            I.note("allreduce operand")
        return self.status(I, f["short"], loc)

    def f_MPI_Allgather(self, I, f, a, loc):
        return self.gatherlike(I, f, a, loc, a[3], a[4], None, a[5], a[6])

    def f_MPI_Allgatherv(self, I, f, a, loc):
        return self.gatherlike(I, f, a, loc, a[3], a[4], a[5], a[6], a[7])

    def gatherlike(self, I, f, a, loc, buf, cnt, disp, ty, comm):
        c = self.comm(I, comm)
        p = Ptr(buf.cell, buf.path) if isinstance(buf, Ptr) else None
        v = I.load(p) if p is not None else None
        if isinstance(v, RefBox):
            v = None
        cn = self.val(I, cnt) if disp is not None else self.sc(I, cnt)
        cc = I.load(Ptr(cnt.cell, cnt.path)) if disp is not None and isinstance(cnt, Ptr) else cn
        dd = I.load(Ptr(disp.cell, disp.path)) if isinstance(disp, Ptr) else None
        self.coll(I, f["short"], c, {"type": self.comm(I, ty), "count": cc, "displ": dd, "value": v, "send": self.val1(I, a[0]),
                                     "scount": self.sc(I, a[1]) if len(a) > 1 else None, "off": buf.off if isinstance(buf, Ptr) else None}, loc)
        if isinstance(v, Vec):
            w = I.absvec(v)
            if isinstance(w.body, T):
                I.store(p, Vec(n=w.n, body=mk("el", mk("gathered", c, w.n, mkmat_(w.body), cc if isinstance(cc, T) else mkmat_(I.absvec(cc).body) if isinstance(cc, Vec) else I.fresh("cnt")), IX0)))
            else:
                I.store(p, Vec(n=w.n, body=self.gathrec(I, c, w)))
        else:
            I.note("allgather operand")
        return self.status(I, f["short"], loc)

    def gathrec(self, I, c, w):
        def go(x):
            if isinstance(x, T):
                return mk("el", mk("gathered", c, w.n, mkmat_(x), ZERO), IX0)
            if isinstance(x, Rec):
                return Rec(x.cls, {k: go(y) for k, y in x.f.items()})
            return x
        return go(w.body)

    def f_MPI_Type_create_struct(self, I, f, a, loc):
        n = self.sc(I, a[0])
        bl = self.val(I, Ptr(a[1].cell, a[1].path)) if isinstance(a[1], Ptr) else None
        dp = self.val(I, Ptr(a[2].cell, a[2].path)) if isinstance(a[2], Ptr) else None
        ty = I.load(Ptr(a[3].cell, a[3].path)) if isinstance(a[3], Ptr) else None
        tys = [self.comm(I, x) for x in ty.items] if isinstance(ty, Vec) and ty.items is not None else None
        t = mk("mpistruct", n, tuple(bl.items) if isinstance(bl, Vec) and bl.items is not None else (),
               tuple(dp.items) if isinstance(dp, Vec) and dp.items is not None else (), tuple(tys or ()))
        I.store(a[4], t)
        I.event("mpitype", (t, tuple(I.frames[-1:])[0].fid if I.frames else None), loc)
        return self.status(I, f["short"], loc)

    def f_MPI_Type_commit(self, I, f, a, loc):
        I.event("mpicommit", (self.val(I, a[0]),), loc)
        return self.status(I, f["short"], loc)

    def f_MPI_Type_free(self, I, f, a, loc):
        return self.status(I, f["short"], loc)

    def f_MPI_Type_create_resized(self, I, f, a, loc):
        I.store(a[3], mk("mpiresized", self.comm(I, a[0]), self.sc(I, a[1]), self.sc(I, a[2])))
        return self.status(I, f["short"], loc)

    def f_MPI_Init(self, I, f, a, loc):
        return self.status(I, f["short"], loc)

    f_MPI_Finalize = f_MPI_Init

    # ------------------------------------------------------------ member functions
    def m_map(self, I, f, m, a, this, loc):
        if m in ("operator[]", "at"):
            k = self.keyterm(I, a[0])
            v = self.val(I, this)
            if isinstance(v, Opq):
                return Opq(mk("mapat", v.t, k))
            if isinstance(v, Map) and k not in v.s:
                if K in v.s and m == "operator[]" and k is not K:
                    pass
                elif m == "operator[]" and not (K in v.s):
                    et = self.p.C[f["cls"]]["targs"][1][1]
                    d = dict(v.s)
                    d[k] = I.zero(et)
                    I.store(this, Map(v.dom, d))
                elif m == "at" and K not in v.s:
                    I.note("map::at of an absent key")
            if m == "at":
                I.event("mapat", (v.dom if isinstance(v, Map) else None, k), loc)
            return I.sub(this, ("key", k))
        if m in ("begin", "cbegin"):
            return It("map", this, "begin")
        if m in ("end", "cend"):
            return It("map", this, "end")
        if m == "size":
            v = self.val(I, this)
            if isinstance(v, Map):
                return mk("count", v.dom) if v.dom is not None else num(len(v.s))
            return I.fresh("size")
        if m == "empty":
            v = self.val(I, this)
            return ieq(mk("count", v.dom), ZERO) if v.dom is not None else (TRUE if not v.s else FALSE)
        if m == "count":
            k = self.keyterm(I, a[0])
            v = self.val(I, this)
            return ONE if k in v.s or (v.dom is not None and k is K) else tite(atom(mk("inmap", k, v.dom or ZERO)), ONE, ZERO)
        if m == "clear":
            I.store(this, Map(None, {}))
            return None
        if m in ("find",):
            return It("map", this, ("key", self.keyterm(I, a[0])))
        if m in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            if len(a) == 2:
                k, x = self.keyterm(I, a[0]), self.val1(I, a[1])
            else:
                r = self.val(I, a[0])
                k, x = self.keyterm(I, r.f["first"]), r.f["second"]
            v = self.val(I, this)
            d = dict(v.s)
            d[k] = x
            I.store(this, Map(v.dom, d))
            return Rec(None, {"first": It("map", this, ("key", k)), "second": TRUE})
        if m == "operator=":
            I.store(this, self.val1(I, a[0]))
            return this
        return NotImplemented

    m_unordered_map = m_map

    def m_vector(self, I, f, m, a, this, loc):
        v = self.val(I, this)
        if isinstance(this, Ptr) and this.off is not None and m in ("begin", "cbegin", "end", "cend", "operator[]", "at", "front", "back") and isinstance(v, Vec):
            this = Ptr(this.cell, this.path + (("vi", this.off),))      # an element that is itself a vector
        if m in ("operator[]", "at"):
            i = self.sc(I, a[0])
            if isinstance(v, Opq):
                return Opq(mk("index", v.t, i))
            return I.index(this, i)
        if m in ("begin", "cbegin"):
            return It("vec", this, ZERO)
        if m in ("end", "cend"):
            return It("vec", this, v.size() if isinstance(v, Vec) else I.fresh("n"))
        if m == "size":
            return v.size() if isinstance(v, Vec) else I.fresh("n")
        if m == "empty":
            return ieq(v.size(), ZERO) if isinstance(v, Vec) else atom(I.fresh("empty"))
        if m == "data":
            if isinstance(this, Ptr):
                return Ptr(this.cell, this.path, ZERO) if this.off is None else Ptr(this.cell, this.path + (("vi", this.off),), ZERO)
            return this
        if m == "front":
            return I.index(this, ZERO)
        if m == "back":
            return I.index(this, sub(v.size(), ONE))
        if m in ("push_back", "emplace_back"):
            x = self.val1(I, a[0]) if len(a) == 1 else None
            if x is None:
                et = self.p.C[f["cls"]]["targs"][0][1]
                c = self.p.cls_of(et)
                x = self.make(I, c, et, a, loc) if c is not None else I.zero(et)
            if isinstance(v, Vec) and v.items is not None:
                I.store(this, Vec(items=v.items + [x]))
            elif isinstance(v, Vec) and v.n is not None:
                old = v.body
                I.store(this, Vec(n=add(v.n, ONE), body=I.vite(ieq(IX0, v.n), x, old)))
            else:
                I.note("push_back")
            return None
        if m in ("reserve", "shrink_to_fit"):
            return None
        if m == "resize":
            et = self.p.C[f["cls"]]["targs"][0][1]
            n = self.sc(I, a[0])
            if isnum(n) and n.args[0] <= 64:
                it = list(v.items or [])[:int(n.args[0])]
                it += [I.zero(et)] * (int(n.args[0]) - len(it))
                I.store(this, Vec(items=it))
            else:
                I.store(this, Vec(n=n, body=I.zero(et)))
            return None
        if m == "clear":
            I.store(this, Vec(items=[]))
            return None
        if m == "operator=":
            I.store(this, self.val1(I, a[0]))
            return this
        if m == "pop_back" and isinstance(v, Vec) and v.items:
            I.store(this, Vec(items=v.items[:-1]))
            return None
        return NotImplemented

    m_list = m_vector
    m_array = m_vector
    m_k_Array = m_vector

    def m_initializer_list(self, I, f, m, a, this, loc):
        return self.m_vector(I, f, m, a, this, loc)

    def m_pair(self, I, f, m, a, this, loc):
        if m == "operator=":
            I.store(this, self.val(I, a[0]))
            return this
        return NotImplemented

    def m_tuple(self, I, f, m, a, this, loc):
        if m == "operator=":
            src = self.val(I, a[0])
            dst = self.val(I, this)
            if isinstance(dst, Rec) and any(isinstance(x, RefBox) for x in dst.f.values()):
                keys = sorted(dst.f, key=lambda s: (len(s), s))
                sk = ["first", "second"] if isinstance(src, Rec) and "first" in src.f else keys
                for k, s in zip(keys, sk):
                    x = src.f.get(s)
                    x = I.load(x.p) if isinstance(x, RefBox) else x
                    if isinstance(dst.f[k], RefBox):
                        cur = I.load(dst.f[k].p)
                        I.store(dst.f[k].p, x)
                return this
            I.store(this, src)
            return this
        return NotImplemented

    def m_function(self, I, f, m, a, this, loc):
        if m == "operator()":
            fn = self.val1(I, this)
            return I.invoke(fn if not isinstance(fn, Rec) else this, a, loc)
        if m == "operator=":
            I.store(this, self.fnval(I, a[0]))
            return this
        if m == "operator bool":
            return I.asbool(self.val1(I, this))
        return NotImplemented

    def m_shared_future(self, I, f, m, a, this, loc):
        if m == "get":
            return self.force(I, this, loc) if self.p.ty(f["ret"])["k"] != "void" else (self.force(I, this, loc), None)[1]
        if m in ("wait",):
            self.force(I, this, loc)
            return None
        if m == "share":
            return self.val1(I, this)
        if m == "valid":
            return TRUE
        if m == "operator=":
            I.store(this, self.val1(I, a[0]))
            return this
        return NotImplemented

    def m_future(self, I, f, m, a, this, loc):
        r = self.m_shared_future(I, f, m, a, this, loc)
        if m == "get" and isinstance(r, (Ptr, PtrSel)) and self.p.ty(f["ret"])["k"] not in ("ref", "rref"):
            return I.load(r)
        return r

    def m_shared_ptr(self, I, f, m, a, this, loc):
        v = self.val1(I, this)
        if m in ("get", "operator->", "operator*"):
            if isinstance(v, (Ptr, PtrSel, Null)):
                return v
            return Opq(mk("pointee", v.t)) if isinstance(v, Opq) else v
        if m == "operator bool":
            return I.asbool(v)
        if m == "operator=":
            I.store(this, self.sptr(I, a[0]))
            return this
        if m == "reset":
            I.store(this, a[0] if a else NULL)
            return None
        return NotImplemented

    m_unique_ptr = m_shared_ptr
    m_shared_ptr_access = m_shared_ptr
    m___shared_ptr = m_shared_ptr
    m__shared_ptr = m_shared_ptr
    m__shared_ptr_access = m_shared_ptr

    def m_optional(self, I, f, m, a, this, loc):
        v = self.val(I, this)
        if m in ("operator bool", "has_value"):
            return v.f["has"]
        if m in ("value", "operator*", "operator->"):
            return I.sub(this, "val")
        if m == "operator=":
            x = self.val(I, a[0])
            I.store(this, x if isinstance(x, Rec) and "has" in x.f else Rec(v.cls, {"has": TRUE, "val": x}))
            return this
        if m == "value_or":
            return I.vite(v.f["has"], v.f["val"], self.val1(I, a[0]))
        return NotImplemented

    def m_reference_wrapper(self, I, f, m, a, this, loc):
        v = self.val1(I, this)
        if m == "get" or m.startswith("operator "):
            return v.p if isinstance(v, RefBox) else this
        return NotImplemented

    def m_atomic(self, I, f, m, a, this, loc):
        if m in ("load",) or m.startswith("operator "):
            return self.val(I, this)
        if m in ("store", "operator="):
            I.store(this, self.val(I, a[0]))
            return None
        return NotImplemented

    m_atomic_base = m_atomic
    m__atomic_base = m_atomic

    def m_k_complex(self, I, f, m, a, this, loc):
        if m == "real":
            return mkreal(self.sc(I, this))
        if m == "imag":
            return mkimag(self.sc(I, this))
        if m == "operator=":
            I.store(this, self.sc(I, a[0]))
            return this
        return NotImplemented

    m_complex = m_k_complex

    def m_k_View(self, I, f, m, a, this, loc):
        v = self.val(I, this)
        if m == "operator=":
            I.store(this, self.val1(I, a[0]))
            return this
        if isinstance(v, Choice):
            pass
        if m in ("extent", "extent_int"):
            d = self.sc(I, a[0])
            x = self.arr(I, v)
            return x.ext[int(d.args[0])] if isnum(d) and d.args[0] < len(x.ext) else ONE
        if m == "size":
            x = self.arr(I, v)
            r = ONE
            for e in x.ext:
                r = mul(r, e)
            return r
        if m == "stride":
            d = self.sc(I, a[0])
            x = self.arr(I, v)
            return x.stride[int(d.args[0])]
        if m == "data":
            if isinstance(v, View) and v.cell is not None:
                return Ptr(v.cell, () if v.slice is None else (("slice", v.slice),), ZERO)
            return NULL if isinstance(v, View) else Opq(I.fresh("data"))
        if m in ("operator()", "operator[]", "access"):
            ix = tuple(self.sc(I, x) for x in a)
            if isinstance(v, View) and v.cell is not None:
                return Ptr(v.cell, (("ix", v.slice, ix),))
            if isinstance(v, Choice):
                ps = [Ptr(w.cell, (("ix", w.slice, ix),)) if isinstance(w, View) else Opq(I.fresh("el")) for w in (v.a, v.b)]
                return PtrSel(v.c, ps[0], ps[1])
            I.note("element of unallocated view")
            return Ptr(I.alloc(I.fresh("el"), "el"))
        if m == "layout":
            return Opq(I.fresh("layout"))
        if m == "rank":
            return num(v.rank)
        if m == "is_allocated":
            return TRUE if isinstance(v, View) and v.cell is not None else FALSE
        if m == "label":
            return mk("str", "label")
        return NotImplemented


# ---------------------------------------------------------------- term helpers
def tcode(t):
    if isnum(t):
        return {111: "N", 112: "T", 113: "H"}.get(int(t.args[0]), "?%s" % t.args[0])
    return "?"


def matof(a, ld, rank):
    m = mkmat(a.body, rank)
    if ld is not a.stride[-1]:
        return mk("badld", m, ld, a.stride[-1])
    return m


def mkmat_(b):
    if isinstance(b, T):
        return mkmat(b, 1)
    return mk("sym", "aggregate")


def commfn(op, c):
    if c.op == "ite":
        return tite(c.args[0], commfn(op, c.args[1]), commfn(op, c.args[2]))
    if c.op == "comm" and str(c.args[0]).endswith("comm_self"):
        return ONE if op == "commsize" else ZERO
    if c.op == "comm" and c.args[0] in LOCALCOMMS:
        return ONE if op == "commsize" else ZERO
    return mk(op, c)


LOCALCOMMS = set()


def mkreal(x):
    if isnum(x) or x.op in ("real", "imag", "abs"):
        return x
    if x.op == "cpx":
        return x.args[0]
    return mk("real", x)


def mkimag(x):
    if isnum(x) or x.op in ("real", "imag", "abs"):
        return ZERO
    if x.op == "cpx":
        return x.args[1]
    return mk("imag", x)


def mkconj(x):
    if isnum(x) or x.op in ("real", "imag", "abs"):
        return x
    if x.op == "conj":
        return x.args[0]
    return mk("conj", x)
