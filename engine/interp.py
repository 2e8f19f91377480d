"""Gated value-flow interpretation of the exported program.

One pass over the (type-resolved) syntax with merging at every join: a state maps
abstract cells to immutable value trees whose scalar leaves are hash-consed terms,
guards are BDDs over comparison atoms, loop-carried values are phi terms.  No path
is enumerated and no solver is called."""
import sys
from term import *
from values import *
from prog import AnalysisBroken

COLLS = ("C", "hphi", "sphi", "fn", "ek", "ekin", "wk")

sys.setrecursionlimit(20000)


class Dead(Exception):
    pass


class Frame:
    __slots__ = ("env", "this", "rets", "scopes", "fid", "brk", "cont")

    def __init__(self, fid):
        self.env = {}
        self.this = None
        self.rets = []
        self.scopes = []
        self.fid = fid
        self.brk = []
        self.cont = []


class Event:
    __slots__ = ("kind", "pc", "data", "loc", "stack", "loops")

    def __init__(self, kind, pc, data, loc, stack, loops):
        self.kind = kind
        self.pc = pc
        self.data = data
        self.loc = loc
        self.stack = stack
        self.loops = loops

    def __repr__(self):
        return "%s@%s %r" % (self.kind, self.loc, self.data)


class LoopRec:
    __slots__ = ("id", "loc", "kind", "phis", "guard", "pc", "fn", "dom", "back")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Interp:
    MAXDEPTH = 120

    def __init__(self, prog, prims):
        self.p = prog
        self.st = PMap()
        self.pc = TRUE
        self.ncell = 0
        self.events = []
        self.loops = []
        self.frames = []
        self.trys = [[]]
        self.loopstack = []
        self.nloop = 0
        self.nsym = 0
        self.cellname = {}
        self.kcells = set()
        self.ext = {}            # named external cells
        self.kdepth = 0
        self.opaque = {}         # reason -> count, what the analysis could not model
        self.statics = {}
        self.globalcells = {}
        self.globinit = {}
        self.phihandle = {}
        self.phiinit = {}
        self.steps = 0
        self.prims = prims
        self.nocall = {}         # name -> handler overriding repo functions
        self.analysed = set()

    # ------------------------------------------------------------ misc
    def fresh(self, name):
        self.nsym += 1
        return mk("sym", "%s#%d" % (name, self.nsym))

    def note(self, why):
        self.opaque[why] = self.opaque.get(why, 0) + 1

    def alloc(self, v, name=None):
        c = self.ncell
        self.ncell += 1
        if name:
            self.cellname[c] = name
        if self.kdepth:
            self.kcells.add(c)
        self.st = self.st.set(c, v)
        return c

    def event(self, kind, data, loc):
        self.events.append(Event(kind, self.pc, data, self.p.loc(loc) if isinstance(loc, int) else loc,
                                 tuple(f.fid for f in self.frames), tuple(self.loopstack)))

    def curloc(self):
        return "?"

    # ------------------------------------------------------------ memory
    def getstep(self, v, s):
        if isinstance(v, Opq):
            return self.opq_member(v, s)
        if isinstance(s, str):
            if isinstance(v, Rec):
                return v.f.get(s)
            if isinstance(v, T) and v.op == "undef":
                return v
            self.note("field %s of %s" % (s, type(v).__name__))
            return None
        k = s[0]
        if k == "key":
            if isinstance(v, Map):
                r = v.s.get(s[1])
                if r is None and K in v.s and s[1] is not K:
                    return self.vsubst(v.s[K], {K: s[1]}, s[1])
                return r
            return None
        if k == "ix":
            if isinstance(v, Arr):
                b = v.body
                m = {IXS[i]: x for i, x in enumerate(s[2])}
                if s[1] is not None and s[1] is not K:
                    m[K] = s[1]
                return subst(b, m)
            return None
        if k == "vi":
            return self.vecget(v, s[1])
        if k == "slice":
            return v
        return None

    def vecget(self, v, i):
        if isinstance(v, Rec) and v.f and all(x.isdigit() for x in v.f):
            v = Vec(items=[v.f[str(j)] for j in range(len(v.f))])
        if isinstance(v, Vec):
            if v.items is not None:
                if isnum(i) and 0 <= i.args[0] < len(v.items):
                    return v.items[int(i.args[0])]
                if not v.items:
                    return None
                r = v.items[-1]
                for j in range(len(v.items) - 2, -1, -1):
                    r = self.vite(ieq(i, num(j)), v.items[j], r)
                return r
            if v.kdom is not None:
                return v.elem if i.op == "kpos" else self.vsubst(v.elem, {K: mk("kat", v.kdom, i)}, mk("kat", v.kdom, i))
            if isinstance(v.body, (T, B)):
                return subst(v.body, {IX0: i})
            if v.body is not None:
                return self.vsubst(v.body, {IX0: i}, None)
        if isinstance(v, Arr):
            return self.getstep(v, ("ix", None, self.decode(v, i)))
        return None

    def decode(self, arr, off):
        if len(arr.ext) == 1:
            return (off,)
        s1 = arr.stride[1]
        i, j = ZERO, ZERO
        for t, sg in addends(off):
            f = factor(t, s1)
            if f is not None:
                j = add(j, f if sg > 0 else neg(f))
            else:
                i = add(i, t if sg > 0 else neg(t))
        return (i, j)

    def setstep(self, v, path, off, x):
        if not path:
            if off is not None:
                return self.vecset(v, off, x)
            return x
        s = path[0]
        if isinstance(v, Opq):
            return v
        if isinstance(s, str):
            if isinstance(v, Rec):
                return v.set(s, self.setstep(v.f.get(s), path[1:], off, x))
            if v is None or (isinstance(v, T) and v.op == "undef"):
                return Rec(None, {s: self.setstep(None, path[1:], off, x)})
            self.note("store field %s of %s" % (s, type(v).__name__))
            return v
        k = s[0]
        if k == "key":
            if not isinstance(v, Map):
                v = Map(None, {})
            d = dict(v.s)
            d[s[1]] = self.setstep(d.get(s[1]), path[1:], off, x)
            return Map(v.dom, d)
        if k == "ix":
            if isinstance(v, Arr):
                if not isinstance(x, T):
                    self.note("non-scalar array store")
                    x = self.fresh("store")
                c = TRUE
                for d, ix in enumerate(s[2]):
                    c = band(c, ieq(IXS[d], ix))
                if s[1] is not None and s[1] is not K:
                    c = band(c, ieq(K, s[1]))
                return Arr(v.ext, v.stride, tite(c, x, v.body))
            return v
        if k == "vi":
            if len(path) > 1:
                old = self.vecget(v, s[1])
                x = self.setstep(old, path[1:], off, x)
            return self.vecset(v, s[1], x)
        if k == "slice":
            return self.setstep(v, path[1:], off, x)
        return v

    def vecset(self, v, i, x):
        if isinstance(v, Rec) and v.f and all(k.isdigit() for k in v.f):
            r = self.vecset(Vec(items=[v.f[str(j)] for j in range(len(v.f))]), i, x)
            return Rec(v.cls, {str(j): y for j, y in enumerate(r.items)})
        if isinstance(v, Arr):
            return self.setstep(v, (("ix", None, self.decode(v, i)),), None, x)
        if isinstance(v, Vec):
            if v.items is not None:
                it = list(v.items)
                if isnum(i) and 0 <= i.args[0] < len(it):
                    it[int(i.args[0])] = x
                else:
                    it = [self.vite(ieq(i, num(j)), x, y) for j, y in enumerate(it)]
                return Vec(items=it)
            if v.n is not None:
                if isinstance(x, T) and isinstance(v.body, T):
                    return Vec(n=v.n, body=tite(ieq(IX0, i), x, v.body))
                if v.body is None or (isinstance(v.body, T) and v.body.op == "undef"):
                    return Vec(n=v.n, body=x)
                self.note("vector store of aggregate")
                return Vec(n=v.n, body=self.vite(ieq(IX0, i), x, v.body))
        if v is None or isinstance(v, Opq):
            return v
        if isnum(i) and i.args[0] == 0:
            return x
        return v

    def load(self, p):
        if isinstance(p, PtrSel):
            return self.vite(p.c, self.load(p.a), self.load(p.b))
        if isinstance(p, Ptr):
            v = self.st.get(p.cell)
            if v is None:
                v = self.globinit.get(p.cell)
            for s in p.path:
                if v is None:
                    break
                v = self.getstep(v, s)
            if p.off is not None and v is not None:
                if isinstance(v, (Arr, Vec)) or (isinstance(v, Rec) and v.f and all(k.isdigit() for k in v.f)):
                    v = self.vecget(v, p.off)
                # otherwise a pointer to a single object (offset 0)
            if v is None:
                self.note("load of unknown %s" % self.cellname.get(p.cell, "?"))
                return self.fresh("unk")
            return v
        if isinstance(p, Opq):
            return p
        self.note("load through %s" % type(p).__name__)
        return self.fresh("unk")

    def store(self, p, x):
        if isinstance(p, PtrSel):
            o = self.load(p)
            self.store(p.a, self.vite(p.c, x, self.load(p.a)))
            self.store(p.b, self.vite(p.c, self.load(p.b), x))
            return
        if not isinstance(p, Ptr):
            self.note("store through %s" % type(p).__name__)
            return
        v = self.st.get(p.cell)
        if p.off is not None:
            # pointer to a single object?
            w = v
            for s in p.path:
                w = self.getstep(w, s) if w is not None else None
            if not (isinstance(w, (Arr, Vec)) or (isinstance(w, Rec) and w.f and all(k.isdigit() for k in w.f))):
                p = Ptr(p.cell, p.path)
        self.st = self.st.set(p.cell, self.setstep(v, p.path, p.off, x))

    def sub(self, p, step):
        if isinstance(p, PtrSel):
            return PtrSel(p.c, self.sub(p.a, step), self.sub(p.b, step))
        if isinstance(p, Ptr):
            if p.off is not None:
                return Ptr(p.cell, p.path + (("vi", p.off),) + (step,)) if self._isarr(p) else Ptr(p.cell, p.path + (step,))
            return Ptr(p.cell, p.path + (step,))
        if isinstance(p, Opq):
            return p
        return p

    def _isarr(self, p):
        v = self.st.get(p.cell)
        for s in p.path:
            v = self.getstep(v, s) if v is not None else None
        return isinstance(v, (Arr, Vec))

    def opq_member(self, v, s):
        return Opq(mk("member", v.t, str(s)))

    # ------------------------------------------------------------ merge
    def vite(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tite(c, a, b)
        if isinstance(a, B) or isinstance(b, B):
            return bite(c, self.asbool(a), self.asbool(b))
        if isinstance(a, T) and a.op == "undef" and isinstance(b, (Rec, Vec, Map, View)):
            return b
        if isinstance(b, T) and b.op == "undef" and isinstance(a, (Rec, Vec, Map, View)):
            return a
        if isinstance(a, Rec) and isinstance(b, Rec):
            d = {}
            for k in a.f:
                d[k] = self.vite(c, a.f[k], b.f.get(k))
            for k in b.f:
                if k not in d:
                    d[k] = b.f[k]
            return Rec(a.cls, d)
        if isinstance(a, (Ptr, PtrSel)) and isinstance(b, (Ptr, PtrSel)):
            if a == b:
                return a
            return PtrSel(c, a, b)
        if isinstance(a, View) and isinstance(b, View):
            if a.cell == b.cell and a.slice is b.slice:
                return a
            if a.cell is None:
                return b
            if b.cell is None:
                return a
            return self.viewsel(c, a, b)
        if isinstance(a, Map) and isinstance(b, Map):
            d = {}
            for k in a.s:
                d[k] = self.vite(c, a.s[k], b.s.get(k))
            for k in b.s:
                if k not in d:
                    d[k] = b.s[k]
            if a.dom is b.dom:
                dm = a.dom
            elif a.dom is None or b.dom is None:
                dm = a.dom or b.dom
            else:
                dm = tite(c, a.dom, b.dom)
            return Map(dm, d)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return Vec(items=[self.vite(c, x, y) for x, y in zip(a.items, b.items)])
            if a.kdom is not None and b.kdom is not None:
                return Vec(kdom=tite(c, a.kdom, b.kdom), elem=self.vite(c, a.elem, b.elem))
            if a.items is not None and not a.items:
                return Vec(n=tite(c, ZERO, b.size()), body=b.body) if b.kdom is None else b
            if b.items is not None and not b.items:
                return Vec(n=tite(c, a.size(), ZERO), body=a.body) if a.kdom is None else a
            va, vb = self.absvec(a), self.absvec(b)
            return Vec(n=tite(c, va.n, vb.n), body=self.vite(c, va.body, vb.body))
        if isinstance(a, Arr) and isinstance(b, Arr):
            return Arr(tuple(tite(c, x, y) for x, y in zip(a.ext, b.ext)), tuple(tite(c, x, y) for x, y in zip(a.stride, b.stride)),
                       tite(c, a.body, b.body))
        if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind == "vec":
            return It("vec", a.cont, tite(c, a.pos, b.pos))
        if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and a.pos == b.pos:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a if a.t is b.t else Opq(tite(c, a.t, b.t))
        if isinstance(a, Fn) and isinstance(b, Fn) and a.fid == b.fid:
            return a
        if isinstance(a, Fut) and isinstance(b, Fut) and a.cell == b.cell:
            return a
        if isinstance(a, Null) or isinstance(b, Null):
            return PtrSel(c, a, b) if isinstance(a, (Ptr, PtrSel, Null)) and isinstance(b, (Ptr, PtrSel, Null)) else (a if isinstance(b, Null) else b)
        return Choice(c, a, b)

    def absvec(self, v):
        if v.n is not None:
            return v
        if v.items is not None:
            if v.items and all(isinstance(x, T) for x in v.items):
                b = v.items[-1]
                for j in range(len(v.items) - 2, -1, -1):
                    b = tite(ieq(IX0, num(j)), v.items[j], b)
                return Vec(n=num(len(v.items)), body=b)
            return Vec(n=num(len(v.items)), body=v.items[0] if v.items else self.fresh("vec"))
        return Vec(n=v.size(), body=self.vsubst(v.elem, {K: mk("kat", v.kdom, IX0)}, None))

    def viewsel(self, c, a, b):
        key = ("sel", c.id, a.cell, b.cell)
        ca, cb = self.mst(0).get(a.cell), self.mst(1).get(b.cell)
        if not (isinstance(ca, Arr) and isinstance(cb, Arr)):
            self.note("view merge")
            return a
        # snapshot; the merged handle denotes a private cell holding the selected content
        n = self.newcells.get(key) if self.newcells is not None else None
        if n is None:
            n = self.ncell
            self.ncell += 1
            if a.cell in self.kcells and b.cell in self.kcells:
                self.kcells.add(n)
            self.cellname[n] = "sel(%s,%s)" % (self.cellname.get(a.cell, a.cell), self.cellname.get(b.cell, b.cell))
            self.pending.append((n, self.vite(c, ca, cb)))
            if self.newcells is not None:
                self.newcells[key] = n
        return View(n, a.rank, a.slice if a.slice is b.slice else None)

    newcells = None
    pending = []
    _ms = None

    def mst(self, i):
        return self._ms[i] if self._ms else self.st

    def merge2(self, f1, f2):
        """f=(pc,st); returns merged (pc,st) and the select condition"""
        pc = bor(f1[0], f2[0])
        c = bconstrain(f1[0], pc)
        sv = (self.newcells, self.pending, self._ms)
        self.newcells, self.pending, self._ms = {}, [], (f1[1], f2[1])
        st = PMap.merge(f1[1], f2[1], lambda x, y: self.vite(c, x, y))
        ctx = (self.newcells, self.pending, self._ms)
        self.newcells, self.pending, self._ms = sv
        for n, v in ctx[1]:
            st = st.set(n, v)
        return pc, st, c, ctx

    def mergeflows(self, flows):
        """flows: [(pc, st, val)]; sets current flow, returns merged value"""
        flows = [f for f in flows if f[0] is not FALSE]
        if not flows:
            self.pc = None
            raise Dead()
        pc, st, val = flows[-1]
        for f in reversed(flows[:-1]):
            pc2, st2, c, ctx = self.merge2((f[0], f[1]), (pc, st))
            if f[2] is not None or val is not None:
                sv = (self.newcells, self.pending, self._ms)
                self.newcells, self.pending, self._ms = ctx[0], [], ctx[2]
                val = self.vite(c, f[2], val)
                pend = self.pending
                self.newcells, self.pending, self._ms = sv
                for n, v in pend:
                    st2 = st2.set(n, v)
            pc, st = pc2, st2
        self.pc, self.st = pc, st
        return val

    # ------------------------------------------------------------ substitution over values
    def vsubst(self, v, m, slice=None, memo=None):
        if isinstance(v, (T, B)):
            return subst(v, m)
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.vsubst(x, m, slice) for k, x in v.f.items()})
        if isinstance(v, Vec):
            return Vec(items=None if v.items is None else [self.vsubst(x, m, slice) for x in v.items],
                       n=None if v.n is None else subst(v.n, m), body=self.vsubst(v.body, m, slice), kdom=v.kdom,
                       elem=v.elem if v.kdom is not None and K in m else self.vsubst(v.elem, m, slice))
        if isinstance(v, Arr):
            return Arr(tuple(subst(x, m) for x in v.ext), tuple(subst(x, m) for x in v.stride), subst(v.body, m))
        if isinstance(v, View):
            if slice is not None:
                return View(v.cell, v.rank, slice)
            if v.slice is not None:
                s = subst(v.slice, m)
                return View(v.cell, v.rank, None if s is K else s)
            return v
        if isinstance(v, Map):
            d = {}
            for k, x in v.s.items():
                d[subst(k, m) if isinstance(k, T) else k] = self.vsubst(x, m, slice)
            return Map(v.dom, d)
        if isinstance(v, Ptr):
            def ps(s):
                if isinstance(s, tuple):
                    return tuple(subst(x, m) if isinstance(x, T) else (tuple(subst(y, m) for y in x) if isinstance(x, tuple) else x) for x in s)
                return s
            return Ptr(v.cell, tuple(ps(s) for s in v.path), None if v.off is None else subst(v.off, m))
        if isinstance(v, Bound):
            return Bound(self.vsubst(v.fn, m, slice), [self.vsubst(x, m, slice) for x in v.args])
        if isinstance(v, Opq):
            return Opq(subst(v.t, m), v.cls)
        if isinstance(v, It) and isinstance(v.pos, T):
            return It(v.kind, v.cont, subst(v.pos, m))
        return v

    # ------------------------------------------------------------ functions
    def call(self, fid, args, this=None, loc=None):
        """args: values (class prvalues / scalars) or Ptr for reference params"""
        f = self.p.F[fid]
        body = f.get("body")
        if body is None:
            return self.external(fid, args, this, loc)
        if len(self.frames) > self.MAXDEPTH:
            raise AnalysisBroken("inlining depth exceeded at " + f["name"])
        self.analysed.add(fid)
        fr = Frame(fid)
        fr.this = this
        for (vid, name, typ), a in zip(f["params"], args):
            self.bind(fr, vid, name, typ, a)
        return self.run(f, fr, body)

    def bind(self, fr, vid, name, typ, a):
        if self.p.ty(typ)["k"] in ("ref", "rref"):
            if not isinstance(a, (Ptr, PtrSel, Opq)):
                a = Ptr(self.alloc(a, name))
            fr.env[vid] = a
        else:
            fr.env[vid] = Ptr(self.alloc(self.conv(a, typ), name))

    def conv(self, a, typ):
        k = self.p.ty(typ)["k"]
        if k == "bool":
            return self.asbool(a)
        if k in ("int", "flt") and isinstance(a, B):
            return tite(a, ONE, ZERO)
        return a

    def run(self, f, fr, body):
        self.frames.append(fr)
        try:
            try:
                self.stmt(body)
            except Dead:
                self.pc = None
            flows = list(fr.rets)
            if self.pc is not None and self.pc is not FALSE:
                rk = self.p.ty(f["ret"])["k"]
                if rk != "void" and not f.get("ctor"):
                    self.event("noreturn", (f["name"],), f["loc"])
                    flows.append((self.pc, self.st, mk("undef", "return value of " + f["name"])))
                else:
                    flows.append((self.pc, self.st, None))
        finally:
            self.frames.pop()
        return self.mergeflows(flows)

    def construct(self, fid, typ, args, loc, this=None):
        """run a constructor; returns the object value (or constructs in place when this given)"""
        f = self.p.F[fid]
        c = f["cls"]
        inplace = this is not None
        if this is None:
            this = Ptr(self.alloc(Rec(c, {}), "obj:" + self.p.C[c]["name"]))
        if f.get("defaulted") and f.get("ctor") in ("copy", "move") and args:
            v = self.load(args[0]) if isinstance(args[0], (Ptr, PtrSel)) else args[0]
            if inplace:
                o = self.load(this)
                if isinstance(o, Rec) and isinstance(v, Rec):
                    d = dict(o.f)
                    names = {x[0] for x in self.p.fields(c)}
                    d.update({k: x for k, x in v.f.items() if k in names or not names})
                    v = Rec(o.cls, d)
                self.store(this, v)
                return None
            return v
        if not f["repo"] and f.get("body") is None:
            return self.external(fid, args, this if inplace else None, loc)
        self.analysed.add(fid)
        fr = Frame(fid)
        fr.this = this
        for (vid, name, ty), a in zip(f["params"], args):
            self.bind(fr, vid, name, ty, a)
        self.frames.append(fr)
        try:
            inits = f.get("inits") or []
            done = set()
            if not any(i[0] == "deleg" for i in inits):
                own = {x[0]: x for x in self.p.C[c].get("fields", [])}
                binits = {i[1] for i in inits if i[0] == "base"}
                for ini in inits:
                    if ini[0] == "base":
                        self.initbase(this, ini[2], ini[1])
                for ini in inits:
                    if ini[0] == "field":
                        ft = own.get(ini[1])
                        self.initfield(this, ini[1], ft[1] if ft else None, ini[2])
                        done.add(ini[1])
                for n, (nm, ft, di) in own.items():
                    if n not in done:
                        if di is not None:
                            self.initfield(this, n, ft, di)
                        else:
                            self.store(self.sub(this, n), self.default(ft, n))
            else:
                for ini in inits:
                    e = ini[2]
                    if e and e[0] == "ctor":
                        self.construct(e[1], e[2], [self.ev(x) for x in e[3]], e[5], this)
        finally:
            self.frames.pop()
        if f.get("body") is not None:
            self.run(dict(f, ret=-1, ctor="x"), fr, f["body"])
        if inplace:
            return None
        return self.load(this)

    def initbase(self, this, e, bcls):
        if e is None:
            return
        if e[0] == "ctor":
            bf = self.p.F[e[1]]
            args = [self.ev(x) for x in e[3]]
            if bf["repo"] or bf.get("body") is not None or (bf.get("defaulted") and bf.get("ctor") in ("copy", "move")):
                self.construct(e[1], e[2], args, e[5], this)
            elif bf.get("ctor") == "default":
                for (n, t, di) in self.p.fields(bcls):
                    self.store(self.sub(this, n), self.default(t, n))
            return
        self.ev(e)

    def initfield(self, this, name, ft, e):
        fp = self.sub(this, name)
        if ft is not None and self.p.ty(ft)["k"] in ("ref", "rref"):
            v = self.ev(e)
            if not isinstance(v, (Ptr, PtrSel, Opq)):
                v = Ptr(self.alloc(v, name))
            self.store(fp, RefBox(v))
            return
        v = self.evv(e, ft)
        if v is None:
            v = self.default(ft, name)
        if ft is not None:
            v = self.conv(v, ft)
        self.store(fp, v)

    def default(self, t, name=""):
        """default-initialised (not value-initialised) object of type t"""
        x = self.p.ty(t)
        k = x["k"]
        if k == "rec":
            c = x["cls"]
            cn = self.p.C[c]["name"]
            h = self.prims.default(self, cn, t, c)
            if h is not None:
                return h
            if self.p.C[c]["repo"] or self.p.C[c].get("aggregate"):
                d = {}
                for (n, ft, di) in self.p.fields(c):
                    if di is not None:
                        d[n] = self.evv(di, ft)
                    else:
                        d[n] = self.default(ft, n)
                return Rec(c, d)
            return Opq(self.fresh("obj:" + cn), cn)
        if k == "arr":
            n = x.get("n")
            if isinstance(n, int) and n <= 64:
                return Vec(items=[self.default(x["p"], name) for _ in range(n)])
        if k == "cpx":
            return mk("undef", name)
        return mk("undef", name)

    def zero(self, t):
        x = self.p.ty(t)
        k = x["k"]
        if k == "bool":
            return FALSE
        if k in ("int", "flt", "enum", "cpx"):
            return ZERO
        if k == "ptr":
            return NULL
        if k == "rec":
            c = x["cls"]
            h = self.prims.default(self, self.p.C[c]["name"], t, c)
            if h is not None:
                return h
            return Rec(c, {n: (self.evv(di, ft) if di is not None else self.zero(ft)) for (n, ft, di) in self.p.fields(c)})
        if k == "arr":
            n = x.get("n")
            if isinstance(n, int) and n <= 64:
                return Vec(items=[self.zero(x["p"]) for _ in range(n)])
        return ZERO

    # ------------------------------------------------------------ calling callables
    def invoke(self, fn, args, loc=None):
        """call a callable value; args are values or Ptrs (as forwarded)"""
        if isinstance(fn, (Ptr, PtrSel)):
            fv = self.load(fn)
            if isinstance(fv, Rec) and fv.cls is not None:
                return self.invoke_obj(fn, fv, args, loc)
            return self.invoke(fv, args, loc)
        if isinstance(fn, RefBox):
            return self.invoke(fn.p, args, loc)
        if isinstance(fn, Fn):
            return self.callconv(fn.fid, args, None, loc)
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Rec):
                p = Ptr(self.alloc(fn.fn, "boundfn"))
                r = self.invoke(p, [Ptr(self.alloc(a, "boundarg")) if not isinstance(a, (Ptr, PtrSel)) else a for a in fn.args] + list(args), loc)
                return r
            return self.invoke(fn.fn, list(fn.args) + list(args), loc)
        if isinstance(fn, Rec):
            return self.invoke_obj(Ptr(self.alloc(fn, "callable")), fn, args, loc)
        if isinstance(fn, Choice):
            flows = []
            pc, st = self.pc, self.st
            for c, g in ((fn.c, fn.a), (bnot(fn.c), fn.b)):
                self.pc, self.st = band(pc, c), st
                if self.pc is FALSE:
                    continue
                try:
                    v = self.invoke(g, args, loc)
                    flows.append((self.pc, self.st, v))
                except Dead:
                    pass
            return self.mergeflows(flows)
        self.note("call of %s" % type(fn).__name__)
        return self.fresh("call")

    def invoke_obj(self, p, obj, args, loc):
        ops = [i for i in self.p.callops.get(obj.cls, []) if self.p.F[i].get("special") != "invoker"]
        cand = [i for i in ops if len(self.p.F[i]["params"]) == len(args)]
        if len(cand) > 1:
            cand = self.pick(cand, args)
        if not cand:
            self.note("no operator() for %s" % self.p.C[obj.cls]["name"])
            return self.fresh("call")
        return self.callconv(cand[0], args, p, loc)

    def pick(self, cand, args):
        """choose among instantiations by argument classes"""
        def cls(a):
            v = self.load(a) if isinstance(a, (Ptr, PtrSel)) else a
            if isinstance(v, Rec):
                return ("rec", v.cls)
            if isinstance(v, View):
                return ("view", v.rank)
            if isinstance(v, (T, B)):
                return ("sc", None)
            return ("o", None)
        best, bs = [], -1
        for i in cand:
            s = 0
            for (vid, n, t), a in zip(self.p.F[i]["params"], args):
                k, w = cls(a)
                c = self.p.cls_of(t)
                cn = self.p.cname(t)
                if k == "rec":
                    if c == w:
                        s += 4
                    elif c is not None and w is not None and self.p.C[c]["name"] == self.p.C[w]["name"]:
                        s += 1
                    else:
                        s -= 5
                elif k == "view":
                    s += 2 if cn == "Kokkos::View" else -5
                elif k == "sc":
                    s += 1 if c is None or cn in ("Kokkos::complex", "std::complex") else -5
            if s > bs or not best:
                if s > bs:
                    best = []
                bs = s
                best.append(i)
            elif s == bs:
                best.append(i)
        return best

    def callconv(self, fid, args, this, loc):
        """perform a call from forwarded args, copying objects bound to by-value params"""
        f = self.p.F[fid]
        out = []
        for (vid, n, t), a in zip(f["params"], args):
            if self.p.ty(t)["k"] in ("ref", "rref"):
                out.append(a)
            else:
                out.append(self.load(a) if isinstance(a, (Ptr, PtrSel)) and self.p.ty(t)["k"] != "ptr" else a)
        if f.get("cls") is not None and f["cls"] in self.p.lambdas and f.get("body") is not None:
            return self.call_lambda(fid, out, this, loc)
        h = self.nocall.get(self.p.sn[fid])
        if h is not None:
            return h(self, fid, out, this, loc)
        return self.call(fid, out, this, loc)

    def call_lambda(self, fid, args, this, loc):
        f = self.p.F[fid]
        self.analysed.add(fid)
        fr = Frame(fid)
        lam = self.p.lambdas[f["cls"]]
        obj = self.load(this) if this is not None else None
        for cap in lam[3]:
            if cap[0] == "this":
                fr.this = obj.f.get("cthis") if isinstance(obj, Rec) else None
                if isinstance(fr.this, RefBox):
                    fr.this = fr.this.p
            else:
                v = obj.f.get("c%d" % cap[1]) if isinstance(obj, Rec) else None
                if isinstance(v, RefBox):
                    fr.env[cap[1]] = v.p
                elif v is not None:
                    fr.env[cap[1]] = self.sub(this, "c%d" % cap[1])
        for (vid, name, typ), a in zip(f["params"], args):
            self.bind(fr, vid, name, typ, a)
        if len(self.frames) > self.MAXDEPTH:
            raise AnalysisBroken("inlining depth exceeded")
        return self.run(f, fr, f["body"])

    # ------------------------------------------------------------ external functions
    def external(self, fid, args, this, loc):
        f = self.p.F[fid]
        return self.prims.call(self, fid, f, self.p.sn[fid], args, this, loc)

    # ------------------------------------------------------------ throw / try
    def throw(self, cls, loc, val=None):
        self.trys[-1].append((self.pc, self.st, cls, self.p.loc(loc) if isinstance(loc, int) else loc, tuple(f.fid for f in self.frames)))
        self.event("throw", (cls,), loc)
        self.pc = None
        raise Dead()

    def throw_if(self, g, cls, loc):
        """conditional throw inside a primitive"""
        t = band(self.pc, g)
        if t is FALSE:
            return
        sv = self.pc
        self.pc = t
        self.trys[-1].append((t, self.st, cls, self.p.loc(loc) if isinstance(loc, int) else loc, tuple(f.fid for f in self.frames)))
        self.event("throw", (cls,), loc)
        self.pc = band(sv, bnot(g))
        if self.pc is FALSE:
            self.pc = None
            raise Dead()

    # ------------------------------------------------------------ booleans
    def asbool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, T):
            if v.op == "b2i":
                return v.args[0]
            if v.op == "ite":
                return bite(v.args[0], self.asbool(v.args[1]), self.asbool(v.args[2]))
            return bnot(ieq(v, ZERO))
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, (Ptr, Fn, Rec, Bound)):
            return TRUE
        if isinstance(v, PtrSel):
            return bite(v.c, self.asbool(v.a), self.asbool(v.b))
        if isinstance(v, Opq):
            return bnot(ieq(v.t, ZERO))
        return atom(self.fresh("cond"))

    # ------------------------------------------------------------ expressions
    def evv(self, e, t=None):
        """evaluate to a value (load glvalues only if AST says prvalue was expected and we hold a Ptr for a class copy)"""
        v = self.ev(e)
        if t is not None and isinstance(v, (Ptr, PtrSel)) and self.p.ty(t)["k"] not in ("ptr", "ref", "rref"):
            v = self.load(v)
        return v

    def ev(self, e):
        if e is None:
            return None
        self.steps += 1
        m = getattr(self, "e_" + e[0], None)
        if m is None:
            self.note("expr " + e[0])
            return self.fresh("expr_" + e[0])
        return m(e)

    def e_int(self, e):
        return num(int(e[1]))

    def e_bool(self, e):
        return TRUE if e[1] else FALSE

    def e_flt(self, e):
        return num(e[1])

    def e_str(self, e):
        return mk("str", e[1])

    def e_null(self, e):
        return NULL

    def e_enum(self, e):
        return num(int(e[2]))

    def e_sizeof(self, e):
        if isinstance(e[2], (list, tuple)):
            return self.ev(e[2])
        return num(int(e[2])) if e[2] is not None else self.fresh("sizeof")

    def e_var(self, e):
        vid = e[1]
        for fr in (self.frames[-1],):
            p = fr.env.get(vid)
            if p is not None:
                return p
        g = self.globalcells.get(vid)
        if g is not None:
            return g
        if vid in self.p.globals:
            gi = self.p.globals[vid]
            v = None
            if gi.get("init") is not None:
                self.frames.append(Frame(-1))
                try:
                    v = self.evv(gi["init"], gi["type"])
                finally:
                    self.frames.pop()
            if v is None:
                v = self.prims.globalval(self, gi)
            p = Ptr(self.alloc(v, gi["name"]))
            self.globinit[p.cell] = v
            self.kcells.discard(p.cell)
            self.globalcells[vid] = p
            return p
        # captured by enclosing frames (e.g. default args); search outwards
        for fr in reversed(self.frames):
            if vid in fr.env:
                return fr.env[vid]
        self.note("unbound variable")
        p = Ptr(self.alloc(self.fresh("var%d" % vid), "var%d" % vid))
        self.frames[-1].env[vid] = p
        return p

    def e_fn(self, e):
        return Fn(e[1])

    def e_this(self, e):
        t = self.frames[-1].this
        return t if t is not None else Opq(mk("sym", "this"))

    def deref(self, v):
        if isinstance(v, RefBox):
            return v.p
        return v

    def e_mem(self, e):
        b = self.ev(e[1])
        if e[3]:   # arrow: base is a pointer value
            if isinstance(b, T):
                return Opq(mk("member", b, e[2]))
        if isinstance(b, (Rec,)):
            b = Ptr(self.alloc(b, "tmp"))
        p = self.sub(b, e[2])
        if isinstance(p, Ptr):
            v = self.st.get(p.cell)
            for s in p.path:
                v = self.getstep(v, s) if v is not None else None
            if isinstance(v, RefBox):
                return v.p
        return p

    def e_rv(self, e):
        p = self.ev(e[1])
        if isinstance(p, (Ptr, PtrSel)):
            return self.load(p)
        if isinstance(p, RefBox):
            return self.load(p.p)
        return p

    def e_mat(self, e):
        v = self.ev(e[1])
        if isinstance(v, (Ptr, PtrSel)) and self.p.ty(e[2])["k"] != "ptr":
            return v
        return Ptr(self.alloc(v, "tmp"))

    def e_bitcast(self, e):
        return self.ev(e[2])

    def e_decay(self, e):
        v = self.ev(e[1])
        if isinstance(v, Ptr) and v.off is None:
            return Ptr(v.cell, v.path, ZERO)
        return v

    def e_upcast(self, e):
        return self.ev(e[2])

    def e_tovoid(self, e):
        self.ev(e[1])
        return None

    def e_cast(self, e):
        v = self.ev(e[3])
        if isinstance(v, (Ptr, PtrSel)) and self.p.ty(e[2])["k"] in ("int", "flt", "bool", "enum"):
            if e[1] in ("PointerToBoolean",):
                return self.asbool(v)
            return self.fresh("ptr2int")
        return self.castto(v, e[2], e[4])

    def castto(self, v, t, st=None):
        k = self.p.ty(t)["k"]
        if k == "bool":
            return self.asbool(v)
        if isinstance(v, B) and k in ("int", "flt", "enum"):
            if v is TRUE:
                return ONE
            if v is FALSE:
                return ZERO
            return mk("b2i", v)
        if k == "int" and isinstance(v, T) and st is not None and self.p.ty(st)["k"] == "flt":
            if isnum(v):
                import math
                return num(math.trunc(v.args[0]))
            return mk("trunc", v)
        if k == "ptr" and isinstance(v, T) and isnum(v):
            if v.args[0] == 0:
                return NULL
            return mk("const", "ptr:%s" % v.args[0])
        return v

    def tconv(self, v):
        """scalar operand as term"""
        if isinstance(v, T):
            return v
        if isinstance(v, B):
            return tite(v, ONE, ZERO)
        if isinstance(v, Opq):
            return v.t
        if isinstance(v, (Ptr, PtrSel)):
            w = self.load(v)
            if isinstance(w, T):
                return w
            if isinstance(w, Opq):
                return w.t
        self.note("scalar from %s" % type(v).__name__)
        return self.fresh("scalar")

    def e_bin(self, e):
        op = e[1]
        if op == "&&" or op == "||":
            l = self.asbool(self.ev(e[2]))
            if op == "&&":
                if l is FALSE:
                    return FALSE
                return self.branchy(l, lambda: self.asbool(self.ev(e[3])), lambda: FALSE)
            if l is TRUE:
                return TRUE
            return self.branchy(l, lambda: TRUE, lambda: self.asbool(self.ev(e[3])))
        a = self.ev(e[2])
        b = self.ev(e[3])
        if op == ",":
            return b
        return self.binop(op, a, b, e[6] if len(e) > 6 else None, e[4], e[5])

    def branchy(self, c, f, g):
        pc, st = self.pc, self.st
        flows = []
        for cc, h in ((c, f), (bnot(c), g)):
            self.pc, self.st = band(pc, cc), st
            if self.pc is FALSE:
                continue
            try:
                v = h()
                flows.append((self.pc, self.st, v))
            except Dead:
                pass
        if len(flows) == 2 and flows[0][1] is flows[1][1] and isinstance(flows[0][2], B) and isinstance(flows[1][2], B):
            self.pc = bor(flows[0][0], flows[1][0])
            self.st = flows[0][1]
            return bite(c, flows[0][2], flows[1][2])
        return self.mergeflows(flows)

    def e_cond(self, e):
        c = self.asbool(self.ev(e[1]))
        return self.branchy(c, lambda: self.ev(e[2]), lambda: self.ev(e[3]))

    def binop(self, op, a, b, lt, rt, loc=None):
        k = self.p.ty(lt)["k"] if lt is not None else None
        if isinstance(a, It) or isinstance(b, It):
            return self.prims.itop(self, op, a, b)
        if isinstance(a, (Ptr, PtrSel, Null)) or isinstance(b, (Ptr, PtrSel, Null)):
            return self.ptrop(op, a, b)
        if op in ("==", "!=") and (isinstance(a, Opq) or isinstance(b, Opq)):
            r = ieq(self.tconv(a), self.tconv(b))
            return r if op == "==" else bnot(r)
        if k == "bool" and op in ("==", "!=") or (isinstance(a, B) and isinstance(b, B) and op in ("==", "!=")):
            x = bite(self.asbool(a), self.asbool(b), bnot(self.asbool(b)))
            return x if op == "==" else bnot(x)
        if isinstance(a, B) and isinstance(b, B) and op in ("&", "|", "^"):
            return {"&": band, "|": bor, "^": lambda x, y: bite(x, bnot(y), y)}[op](a, b)
        a = self.tconv(a)
        b = self.tconv(b)
        isf = k == "flt" or k == "cpx"
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if isf:
                return div(a, b)
            if isnum(a) and isnum(b) and b.args[0] != 0:
                q = abs(a.args[0]) // abs(b.args[0])
                return num(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q)
            self.event("intdiv", ("/", a, b), loc)
            return mk("idiv", a, b)
        if op == "%":
            if isnum(a) and isnum(b) and b.args[0] != 0:
                import math
                return num(int(math.fmod(int(a.args[0]), int(b.args[0]))))
            self.event("intdiv", ("%", a, b), loc)
            return mk("imod", a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isf:
                return {"<": lambda: flt(a, b), ">": lambda: flt(b, a), "<=": lambda: fle(a, b), ">=": lambda: fle(b, a),
                        "==": lambda: feq(a, b), "!=": lambda: bnot(feq(a, b))}[op]()
            return {"<": lambda: ilt(a, b), ">": lambda: ilt(b, a), "<=": lambda: bnot(ilt(b, a)), ">=": lambda: bnot(ilt(a, b)),
                    "==": lambda: ieq(a, b), "!=": lambda: bnot(ieq(a, b))}[op]()
        return mk("op" + op, a, b)

    def ptrop(self, op, a, b):
        if op in ("==", "!="):
            if isinstance(a, T):
                a, b = b, a
            if isinstance(a, PtrSel):
                r = bite(a.c, self.ptrop("==", a.a, b), self.ptrop("==", a.b, b))
            elif isinstance(b, PtrSel):
                return self.ptrop(op, b, a)
            elif isinstance(a, Null) and isinstance(b, Null):
                r = TRUE
            elif isinstance(a, Null) and isinstance(b, T):
                r = ieq(b, ZERO) if b.op != "const" else FALSE
            elif isinstance(a, Null) or isinstance(b, Null):
                r = FALSE
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.cell == b.cell and a.path == b.path:
                    r = ieq(a.off or ZERO, b.off or ZERO)
                else:
                    r = FALSE
            else:
                r = atom(self.fresh("ptreq"))
            return r if op == "==" else bnot(r)
        if isinstance(a, T) and isinstance(b, Ptr):
            a, b = b, a
        if isinstance(a, Ptr) and isinstance(b, T):
            o = a.off if a.off is not None else ZERO
            return Ptr(a.cell, a.path, add(o, b) if op == "+" else sub(o, b))
        if isinstance(a, PtrSel) and isinstance(b, T):
            return PtrSel(a.c, self.ptrop(op, a.a, b), self.ptrop(op, a.b, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and a.cell == b.cell:
            return sub(a.off or ZERO, b.off or ZERO)
        if op in ("<", ">", "<=", ">=") and isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.binop(op, a.off or ZERO, b.off or ZERO, None, None)
        self.note("pointer op " + op)
        return self.fresh("ptrop")

    def e_asg(self, e):
        op = e[1]
        if op == "=":
            r = self.ev(e[3])
            l = self.ev(e[2])
            if isinstance(r, (Ptr, PtrSel)) and self.p.ty(e[4])["k"] not in ("ptr", "ref"):
                r = self.load(r)
            self.store(l, self.conv(r, e[4]))
            return l
        r = self.ev(e[3])
        l = self.ev(e[2])
        o = self.load(l)
        v = self.binop(op[:-1], o, r, e[6] if e[6] is not None else e[4], e[4], e[5])
        self.store(l, self.castto(v, e[4], e[6]) if e[6] is not None else v)
        return l

    def e_un(self, e):
        op = e[1]
        v = self.ev(e[2])
        if op == "!":
            return bnot(self.asbool(v))
        if op == "-":
            return neg(self.tconv(v))
        if op == "+":
            return v
        return mk("un" + op, self.tconv(v))

    def e_inc(self, e):
        p = self.ev(e[3])
        o = self.load(p)
        if isinstance(o, It):
            n = self.prims.itadv(self, o, num(e[2]))
        elif isinstance(o, Ptr):
            n = self.ptrop("+", o, num(e[2]))
        else:
            n = add(self.tconv(o), num(e[2]))
        self.store(p, n)
        return p if e[1] == "pre" else o

    def e_sub(self, e):
        b = self.ev(e[1])
        i = self.tconv(self.ev(e[2]))
        return self.index(b, i)

    def index(self, b, i):
        if isinstance(b, Ptr):
            return Ptr(b.cell, b.path, add(b.off or ZERO, i))
        if isinstance(b, PtrSel):
            return PtrSel(b.c, self.index(b.a, i), self.index(b.b, i))
        if isinstance(b, Opq):
            return Opq(mk("index", b.t, i))
        if isinstance(b, T):
            return Opq(mk("index", b, i))
        return b

    def e_deref(self, e):
        return self.ev(e[1])

    def e_addr(self, e):
        return self.ev(e[1])

    def e_vinit(self, e):
        return self.zero(e[1])

    def e_ilist(self, e):
        t = e[1]
        x = self.p.ty(t)
        k = x["k"]
        els = e[2]
        if k == "rec":
            c = x["cls"]
            cn = self.p.C[c]["name"]
            fl = self.p.fields(c)
            d = {}
            names = e[3]
            vals = []
            for i, s in enumerate(els):
                ft = None
                nm = names[i] if i < len(names) else None
                for f in fl:
                    if f[0] == nm:
                        ft = f[1]
                v = self.evv(s, ft if ft is not None else None)
                vals.append(v)
                if nm is not None:
                    if ft is not None and self.p.ty(ft)["k"] in ("ref", "rref") and isinstance(v, (Ptr, PtrSel)):
                        v = RefBox(v)
                    d[nm] = self.conv(v, ft) if ft is not None else v
            if cn == "std::array":
                if len(vals) == 1 and isinstance(vals[0], Vec):
                    return vals[0]
                return Vec(items=vals)
            if cn.startswith("Kokkos::") and len(vals) == 1 and isinstance(vals[0], Vec):
                return vals[0]
            if not d and len(vals) == 1 and len(fl) == 0:
                return vals[0]
            for (n, ft, di) in fl:
                if n not in d:
                    d[n] = self.evv(di, ft) if di is not None else self.zero(ft)
            return Rec(c, d)
        if k == "arr":
            vals = [self.evv(s, x["p"]) for s in els]
            n = x.get("n")
            while isinstance(n, int) and len(vals) < n and n <= 64:
                vals.append(self.zero(x["p"]))
            return Vec(items=vals)
        if len(els) == 1:
            return self.conv(self.evv(els[0], t), t)
        if not els:
            return self.zero(t)
        return Vec(items=[self.evv(s) for s in els])

    def e_stdil(self, e):
        out = []
        for s in e[1]:
            v = self.ev(s)
            if isinstance(v, (Ptr, PtrSel)):
                v = self.load(v)
            out.append(v)
        return Vec(items=out)

    def e_ctor(self, e):
        fid, typ, args, kind, loc = e[1], e[2], e[3], e[4], e[5]
        f = self.p.F[fid] if fid is not None and fid >= 0 else None
        a = [self.ev(x) for x in args]
        if f is None:
            return self.default(typ)
        c = f["cls"]
        C = self.p.C[c]
        if f.get("body") is None and (f.get("defaulted") or f.get("implicit")) and (C["repo"] or C.get("lambda")):
            if kind in ("copy", "move") and a:
                v = self.load(a[0]) if isinstance(a[0], (Ptr, PtrSel)) else a[0]
                return self.copyobj(c, v)
            if kind == "default" and not f.get("inits"):
                r = self.zero(typ) if (len(e) > 6 and e[6]) else self.default(typ)
                return r
        if f.get("body") is None and not f.get("inits") and not C["repo"]:
            return self.prims.ctor(self, f, self.p.C[c]["name"], typ, a, kind, loc)
        return self.construct(fid, typ, a, loc)

    def copyobj(self, c, v):
        return v

    def args(self, fid, exprs):
        f = self.p.F[fid]
        out = []
        ps = f["params"]
        for i, x in enumerate(exprs):
            v = self.ev(x)
            if i < len(ps):
                k = self.p.ty(ps[i][2])["k"]
                if k not in ("ref", "rref", "ptr") and isinstance(v, (Ptr, PtrSel)) and self.p.ty(ps[i][2])["k"] == "rec":
                    cn = self.p.cname(ps[i][2])
                    if cn not in ("std::shared_ptr", "std::unique_ptr"):
                        v = self.load(v)
            out.append(v)
        return out

    def e_call(self, e):
        fid = e[1]
        h = self.nocall.get(self.p.sn[fid])
        a = self.args(fid, e[2])
        if h is not None:
            return h(self, fid, a, None, e[3])
        f = self.p.F[fid]
        if f.get("body") is None:
            return self.prims.call(self, fid, f, self.p.sn[fid], a, None, e[3], e[4])
        r = self.call(fid, a, None, e[3])
        return r

    def e_mcall(self, e):
        fid, obj, arrow, args, virt, loc = e[1], e[2], e[3], e[4], e[5], e[6]
        f = self.p.F[fid]
        o = self.ev(obj)
        if isinstance(o, RefBox):
            o = o.p
        if not isinstance(o, (Ptr, PtrSel, Opq)):
            o = Ptr(self.alloc(o, "tmp"))
        if f.get("special") in ("copyasg", "moveasg") and f.get("body") is None and self.p.C[f["cls"]]["repo"]:
            v = self.ev(args[0])
            v = self.load(v) if isinstance(v, (Ptr, PtrSel)) else v
            cur = None
            self.assignobj(o, v)
            return o
        a = self.args(fid, args)
        h = self.nocall.get(self.p.sn[fid])
        if h is not None:
            return h(self, fid, a, o, loc)
        if f.get("virtual") and virt:
            return self.virtual(fid, f, o, a, loc)
        if f.get("cls") is not None and f["cls"] in self.p.lambdas and f.get("body") is not None:
            return self.call_lambda(fid, a, o, loc)
        if f.get("body") is None:
            return self.prims.call(self, fid, f, self.p.sn[fid], a, o, loc, e[7])
        return self.call(fid, a, o, loc)

    def assignobj(self, o, v):
        """memberwise copy assignment; reference members are not rebound"""
        self.store(o, v)

    def virtual(self, fid, f, o, a, loc):
        v = self.load(o) if isinstance(o, (Ptr, PtrSel)) else o
        if isinstance(v, Rec) and v.cls is not None:
            # concrete dynamic type known: find override
            for i in self.p.byname.get(self.p.C[v.cls]["name"] + "::" + f["short"], []):
                if self.p.F[i].get("body") is not None and len(self.p.F[i]["params"]) == len(f["params"]):
                    return self.call(i, a, o, loc)
            if f.get("body") is not None:
                return self.call(fid, a, o, loc)
        return self.prims.virtual(self, fid, f, o, v, a, loc)

    def e_icall(self, e):
        fn = self.ev(e[1])
        if isinstance(fn, (Ptr, PtrSel)):
            fn = self.load(fn)
        a = [self.ev(x) for x in e[2]]
        return self.invoke(fn, a, e[3])

    def e_lambda(self, e):
        d = {}
        for cap in e[3]:
            if cap[0] == "this":
                d["cthis"] = RefBox(self.frames[-1].this) if self.frames[-1].this is not None else None
            elif cap[2]:
                p = self.ev(cap[3]) if cap[3] is not None else None
                if not isinstance(p, (Ptr, PtrSel, Opq)):
                    p = self.e_var(["var", cap[1]]) if p is None else Ptr(self.alloc(p, "cap"))
                d["c%d" % cap[1]] = RefBox(p)
            else:
                v = self.ev(cap[3]) if cap[3] is not None else self.e_var(["var", cap[1]])
                if isinstance(v, (Ptr, PtrSel)):
                    # captured pointer variables keep the pointer; objects are copied
                    if cap[3] is not None and cap[3][0] in ("rv", "addr", "decay", "new", "call", "mcall"):
                        pass
                    else:
                        v = self.load(v)
                d["c%d" % cap[1]] = v
        return Rec(e[1], d)

    def e_new(self, e):
        v = self.ev(e[2]) if e[2] is not None else self.default(e[1])
        if isinstance(v, (Ptr, PtrSel)):
            v = self.load(v)
        return Ptr(self.alloc(v, "heap"))

    def e_del(self, e):
        self.ev(e[1])
        return None

    def e_throw(self, e):
        if e[1] is None:
            self.throw(self.curexc[-1] if self.curexc else None, e[3])
        v = self.ev(e[1])
        self.throw(e[2], e[3], v)

    curexc = []

    def e_dtorcall(self, e):
        return None

    def e_stmtexpr(self, e):
        self.stmt(e[1])
        return None

    def e_arraycopy(self, e):
        v = self.ev(e[1]) if len(e) > 1 else None
        if isinstance(v, (Ptr, PtrSel)):
            v = self.load(v)
        return v

    def e_unknown(self, e):
        self.note("unknown expr " + str(e[1]))
        for x in e[3] if len(e) > 3 and isinstance(e[3], list) else []:
            if isinstance(x, list):
                self.ev(x)
        return self.fresh("unknown")

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.pc is None:
            if self.pc is None:
                raise Dead()
            return
        m = getattr(self, "s_" + s[0], None)
        if m is None:
            self.note("stmt " + str(s[0]))
            return
        m(s)

    def s_block(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        try:
            for x in s[1]:
                self.stmt(x)
            self.rundtors(fr.scopes[-1])
        finally:
            fr.scopes.pop()

    def rundtors(self, scope):
        for (p, fid) in reversed(scope):
            self.call(fid, [], p)

    def s_decl(self, s):
        for d in s[1]:
            self.decl(d)

    def decl(self, d):
        vid, name, typ, init, static, binds = d[0], d[1], d[2], d[3], d[4], d[5]
        fr = self.frames[-1]
        k = self.p.ty(typ)["k"]
        if static:
            if vid in self.statics:
                fr.env[vid] = self.statics[vid]
                return
        if k in ("ref", "rref"):
            v = self.ev(init)
            if isinstance(v, RefBox):
                v = v.p
            if not isinstance(v, (Ptr, PtrSel, Opq)):
                v = Ptr(self.alloc(v, name))
            fr.env[vid] = v
        else:
            if init is None:
                v = self.default(typ, name)
            else:
                v = self.ev(init)
                if isinstance(v, (Ptr, PtrSel)) and k not in ("ptr",) and self.p.cname(typ) not in ("std::shared_ptr", "std::unique_ptr"):
                    v = self.load(v)
                if v is None:
                    v = self.default(typ, name)
                v = self.conv(v, typ)
            p = Ptr(self.alloc(v, name))
            fr.env[vid] = p
            c = self.p.cls_of(typ)
            if c is not None and self.p.C[c]["repo"]:
                dt = self.p.C[c].get("dtor")
                if dt is not None and dt >= 0 and self.p.F[dt].get("body") is not None and self.p.F[dt]["body"] != ["block", []] \
                        and not self.prims.skipdtor(self.p.C[c]["name"]):
                    fr.scopes[-1].append((p, dt)) if fr.scopes else None
        if static:
            self.statics[vid] = fr.env[vid]
        for i, b in enumerate(binds or []):
            self.binding(fr, b, fr.env[vid], i)

    def binding(self, fr, b, base, i):
        bid, bname, btyp, bexpr = b
        v = self.load(base) if isinstance(base, (Ptr, PtrSel)) else base
        if isinstance(v, Rec):
            ks = list(v.f)
            if set(ks) >= {"first", "second"}:
                ks = ["first", "second"]
            elif all(x.isdigit() for x in ks):
                ks = sorted(ks, key=int)
            if i < len(ks):
                p = self.sub(base, ks[i])
                w = self.load(p)
                fr.env[bid] = w.p if isinstance(w, RefBox) else p
                return
        if isinstance(v, Vec) and v.items is not None:
            fr.env[bid] = self.sub(base, ("vi", num(i)))
            return
        if bexpr is not None:
            p = self.ev(bexpr)
            fr.env[bid] = p if isinstance(p, (Ptr, PtrSel)) else Ptr(self.alloc(p, bname))

    def s_expr(self, s):
        self.ev(s[1])

    def s_null(self, s):
        pass

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s[1] is not None:
            v = self.ev(s[1])
            f = self.p.F[fr.fid] if fr.fid >= 0 else None
            if f is not None:
                rk = self.p.ty(f["ret"])["k"]
                if rk not in ("ref", "rref", "ptr") and isinstance(v, (Ptr, PtrSel)) and self.p.cname(f["ret"]) not in ("std::shared_ptr", "std::unique_ptr"):
                    v = self.load(v)
                v = self.conv(v, f["ret"])
        for sc in reversed(fr.scopes):
            self.rundtors(sc)
        fr.rets.append((self.pc, self.st, v))
        if self.p.locs:
            self.event("ret", (v,), s[2])
        self.pc = None
        raise Dead()

    def s_if(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        if s[1] is not None:
            self.stmt(s[1])
        if s[2] is not None:
            self.stmt(s[2]) if s[2][0] == "decl" else self.decl(s[2])
        c = self.asbool(self.ev(s[3]))
        fr.scopes.pop()
        self.fork(c, lambda: self.stmt(s[4]), (lambda: self.stmt(s[5])) if s[5] is not None else None)

    def fork(self, c, f, g):
        pc, st = self.pc, self.st
        flows = []
        for cc, h in ((c, f), (bnot(c), g)):
            self.pc, self.st = band(pc, cc), st
            if self.pc is FALSE:
                continue
            try:
                if h is not None:
                    h()
                if self.pc is not None:
                    flows.append((self.pc, self.st, None))
            except Dead:
                pass
        self.mergeflows(flows)

    def s_switch(self, s):
        if s[1] is not None:
            self.stmt(s[1])
        v = self.ev(s[2])
        v = self.tconv(v)
        items = s[3]
        fr = self.frames[-1]
        savebrk = fr.brk
        fr.brk = []
        pc, st = self.pc, self.st
        consts = []
        for it in items:
            if it[0] == "case":
                cv = it[1]
                cv = self.ev(cv) if isinstance(cv, list) else num(int(cv))
                consts.append(cv)
        anyc = FALSE
        for cv in consts:
            anyc = bor(anyc, ieq(v, cv))
        # fall-through semantics: walk items with the set of flows that entered
        self.pc = None
        hasdef = any(it[0] == "default" for it in items)
        taken = FALSE
        for it in items:
            if it[0] in ("case", "default"):
                if it[0] == "case":
                    cv = self.ev(it[1]) if isinstance(it[1], list) else num(int(it[1]))
                    g = ieq(v, cv)
                    g = band(g, bnot(taken))
                    taken = bor(taken, g)
                else:
                    g = bnot(anyc)
                npc = band(pc, g)
                flows = []
                if npc is not FALSE:
                    flows.append((npc, st, None))
                if self.pc is not None:
                    flows.append((self.pc, self.st, None))
                if flows:
                    self.mergeflows(flows)
            else:
                if self.pc is None:
                    continue
                try:
                    self.stmt(it)
                except Dead:
                    self.pc = None
        flows = list(fr.brk)
        fr.brk = savebrk
        if self.pc is not None:
            flows.append((self.pc, self.st, None))
        if not hasdef:
            npc = band(pc, bnot(anyc))
            if npc is not FALSE:
                flows.append((npc, st, None))
        self.mergeflows(flows)

    def s_break(self, s):
        self.frames[-1].brk.append((self.pc, self.st, None))
        self.pc = None
        raise Dead()

    def s_continue(self, s):
        self.frames[-1].cont.append((self.pc, self.st, None))
        self.pc = None
        raise Dead()

    def s_try(self, s):
        self.trys.append([])
        flows = []
        try:
            try:
                self.stmt(s[1])
                if self.pc is not None:
                    flows.append((self.pc, self.st, None))
            except Dead:
                pass
        finally:
            thrown = self.trys.pop()
        rest = thrown
        for h in s[2]:
            mine = [t for t in rest if self.catches(h[0], t[2])]
            rest = [t for t in rest if not self.catches(h[0], t[2])]
            if not mine:
                continue
            try:
                self.mergeflows([(t[0], t[1], None) for t in mine])
                if h[1] is not None and isinstance(h[1], list) and h[1]:
                    d = h[1]
                    vid = d[0] if isinstance(d[0], int) else (d[1][0][0] if d[0] == "decl" else None)
                    if vid is not None:
                        self.frames[-1].env[vid] = Ptr(self.alloc(Opq(mk("sym", "exception")), "exc"))
                self.curexc = self.curexc + [mine[0][2]]
                try:
                    self.stmt(h[2])
                finally:
                    self.curexc = self.curexc[:-1]
                if self.pc is not None:
                    flows.append((self.pc, self.st, None))
            except Dead:
                pass
        self.trys[-1].extend(rest)
        self.mergeflows(flows)

    def catches(self, h, cls):
        if h is None or h == -1:
            return True
        if cls is None:
            return False
        if h == cls:
            return True
        if isinstance(cls, str) or isinstance(h, str):
            hn = h if isinstance(h, str) else self.p.C[h]["name"]
            cn = cls if isinstance(cls, str) else self.p.C[cls]["name"]
            return hn == cn or hn == "std::exception" or (hn == "std::runtime_error" and cn == "std::runtime_error")
        seen = set()
        st = [cls]
        hn = self.p.C[h]["name"]
        while st:
            c = st.pop()
            if c is None or c < 0 or c in seen:
                continue
            seen.add(c)
            if c == h or self.p.C[c]["name"] == hn:
                return True
            st.extend(self.p.C[c].get("bases", []))
        return False

    # ------------------------------------------------------------ loops
    def s_while(self, s):
        def cond():
            if s[1] is not None:
                self.stmt(s[1]) if s[1][0] == "decl" else self.decl(s[1])
            return self.asbool(self.ev(s[2])) if s[2] is not None else TRUE
        self.loop("while", s[4], cond, lambda: self.stmt(s[3]), None)

    def s_do(self, s):
        # body executed once before the test; first-iteration flag as a cell
        c = self.alloc(TRUE, "do-first")

        def cond():
            f = self.st.get(c)
            pc, st = self.pc, self.st
            g = self.branchy(f, lambda: TRUE, lambda: self.asbool(self.ev(s[2])))
            self.st = self.st.set(c, FALSE)
            return g
        self.loop("do", s[3], cond, lambda: self.stmt(s[1]), None)

    def s_for(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        try:
            if s[1] is not None:
                self.stmt(s[1])
            # explicit iterator loops over maps
            mi = self.mapiter(s)
            if mi is not None:
                self.kloop_iter(mi, s[4], s[5])
                return
            cond = (lambda: self.asbool(self.ev(s[2]))) if s[2] is not None else (lambda: TRUE)
            inc = (lambda: self.ev(s[3])) if s[3] is not None else None
            self.loop("for", s[5], cond, lambda: self.stmt(s[4]), inc)
        finally:
            fr.scopes.pop()

    def mapiter(self, s):
        if s[1] is None or s[1][0] != "decl":
            return None
        for d in s[1][1]:
            p = self.frames[-1].env.get(d[0])
            if isinstance(p, Ptr):
                v = self.load(p)
                if isinstance(v, It) and v.kind == "map" and v.pos == "begin":
                    return p
        return None

    def kloop_iter(self, p, body, loc):
        it = self.load(p)
        self.kloop(it, p, lambda: self.stmt(body), loc)

    def s_foreach(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        try:
            if s[1] is not None:
                self.stmt(s[1])
            self.stmt(s[2])
            self.stmt(s[3])
            self.stmt(s[4])
            bvid = s[3][1][0][0]
            bp = fr.env[bvid]
            v = self.load(bp) if isinstance(bp, Ptr) else bp

            def body():
                fr.scopes.append([])
                try:
                    self.decl(s[5])
                    self.stmt(s[6])
                    self.rundtors(fr.scopes[-1])
                finally:
                    fr.scopes.pop()
            if isinstance(v, It) and v.kind == "map":
                m = self.load(v.cont)
                if isinstance(m, Map) and m.dom is None and K not in m.s:
                    # concrete entries
                    for k in list(m.s):
                        self.store(bp, It("map", v.cont, ("key", k)))
                        self.unrolled(body)
                    return
                self.kloop(v, bp, body, s[7])
                return
            if isinstance(v, It) and v.kind == "vec":
                c = self.load(v.cont)
                if isinstance(c, Vec) and c.items is not None:
                    self.unroll(bp, v, len(c.items), body)
                    return
                if isinstance(c, Vec) and c.kdom is not None:
                    self.kloop(It("veck", v.cont, "begin"), bp, body, s[7])
                    return
            if isinstance(v, Ptr):
                c = self.load(Ptr(v.cell, v.path))
                if isinstance(c, Vec) and c.items is not None:
                    for i in range(len(c.items)):
                        self.store(bp, Ptr(v.cell, v.path, num(i)))
                        self.unrolled(body)
                    return
            self.loop("foreach", s[7], lambda: self.asbool(self.ev(s[9])), body, lambda: self.ev(s[8]))
        finally:
            fr.scopes.pop()

    def unroll(self, bp, v, n, body):
        fr = self.frames[-1]
        sb = fr.brk
        fr.brk = []
        try:
            for i in range(n):
                self.store(bp, It("vec", v.cont, num(i)))
                self.unrolled(body)
        except Dead:
            pass
        flows = fr.brk
        fr.brk = sb
        if self.pc is not None:
            flows.append((self.pc, self.st, None))
        self.mergeflows(flows)

    def unrolled(self, body):
        fr = self.frames[-1]
        sc = fr.cont
        fr.cont = []
        try:
            try:
                body()
            except Dead:
                self.pc = None
            flows = fr.cont
        finally:
            fr.cont = sc
        if self.pc is not None:
            flows.append((self.pc, self.st, None))
        self.mergeflows(flows)

    def marks(self):
        return (len(self.events), [len(t) for t in self.trys], [len(f.rets) for f in self.frames], len(self.loops))

    def rewind(self, m):
        del self.events[m[0]:]
        for t, n in zip(self.trys, m[1]):
            del t[n:]
        for f, n in zip(self.frames, m[2]):
            del f.rets[n:]
        del self.loops[m[3]:]

    def phi(self, lid, key):
        return mk("phi", lid, key)

    def phify(self, lid, key, init, head, nxt, kl, ctx):
        """new head value for a location whose back-edge value is nxt"""
        if nxt is head:
            return head
        if isinstance(head, T) or isinstance(nxt, T):
            if isinstance(head, B) or isinstance(nxt, B):
                return atom(self.phi(lid, key))
            if isinstance(head, T):
                if head.op == "phi" and head.args[0] == lid:
                    return head
                if isinstance(nxt, T):
                    return self.phi(lid, key)
            return head if not isinstance(head, T) else nxt
        if isinstance(head, B):
            if head.lo is FALSE and head.hi is TRUE and atoms[head.v].op == "phi" and atoms[head.v].args[0] == lid:
                return head
            return atom(self.phi(lid, key))
        if isinstance(head, Rec) and isinstance(nxt, Rec):
            d = {}
            ch = False
            for k, x in head.f.items():
                y = nxt.f.get(k, x)
                i0 = init.f.get(k, x) if isinstance(init, Rec) else x
                d[k] = self.phify(lid, key + "." + k, i0, x, y, kl, ctx)
                ch = ch or d[k] is not x
            for k, y in nxt.f.items():
                if k not in d:
                    d[k] = y
                    ch = True
            return Rec(head.cls, d) if ch else head
        if isinstance(head, View) and isinstance(nxt, View):
            if head.cell == nxt.cell:
                return head
            if head.cell is None:
                return nxt
            if nxt.cell is None:
                return head
            if (lid, key) in self.phihandle:
                if head.cell == self.phihandle[(lid, key)]:
                    return head
                return View(self.phihandle[(lid, key)], head.rank, head.slice)
            pair = (head.cell, nxt.cell)
            pcell = ctx["pairs"].get(pair)
            if pcell is None:
                pcell = self.ncell
                self.ncell += 1
                ctx["pairs"][pair] = pcell
                if head.cell in self.kcells:
                    self.kcells.add(pcell)
                self.cellname[pcell] = "phi:" + key
                a = ctx["st0"].get(head.cell)
                b = ctx["st1"].get(nxt.cell)
                if isinstance(a, Arr):
                    ext = []
                    for d, x in enumerate(a.ext):
                        y = b.ext[d] if isinstance(b, Arr) and d < len(b.ext) else x
                        ext.append(x if x is y else self.phi(lid, key + ".ext%d" % d))
                    strd = tuple(a.stride) if isinstance(b, Arr) and a.ext == b.ext else ((ONE,) + tuple(ext[:1]) if len(ext) == 2 else (ONE,))
                    ctx["extra"][pcell] = Arr(tuple(ext), strd, elread(self.phi(lid, key), *IXS[:len(ext)]) if pcell not in self.kcells
                                              else mk("el", mk("at", self.phi(lid, key), K), *IXS[:len(ext)]))
                    self.phiinit[pcell] = (head.cell, nxt.cell)
                else:
                    ctx["extra"][pcell] = a
            self.phihandle[(lid, key)] = pcell
            return View(pcell, head.rank, head.slice)
        if isinstance(head, Arr) and isinstance(nxt, Arr):
            ph = self.phi(lid, key)
            if head.body is nxt.body and head.ext == nxt.ext:
                return head
            if contains(head.body, lambda x: x is ph) and head.ext == nxt.ext:
                return head
            ext = tuple(x if x is y else self.phi(lid, key + ".ext%d" % d) for d, (x, y) in enumerate(zip(head.ext, nxt.ext)))
            return Arr(ext, head.stride, mk("el", ph if ctx.get("cell") not in self.kcells else mk("at", ph, K), *IXS[:len(ext)]))
        if isinstance(head, Map) and isinstance(nxt, Map):
            if kl:
                return head
            d = dict(head.s)
            ch = False
            for k, y in nxt.s.items():
                if k in d:
                    i0 = init.s.get(k, d[k]) if isinstance(init, Map) else d[k]
                    nv = self.phify(lid, key + "[%s]" % show(k) if isinstance(k, T) else key + str(k), i0, d[k], y, kl, ctx)
                    if nv is not d[k]:
                        d[k] = nv
                        ch = True
                elif isinstance(k, T) and contains(k, lambda x: x.op == "phi" and x.args[0] == lid):
                    pass    # key depends on the induction variable: generalised on exit
                elif isinstance(k, T) and k.op == "kidx":
                    pass
                else:
                    d[k] = y
                    ch = True
            return Map(head.dom if head.dom is not None else nxt.dom, d) if ch else head
        if isinstance(head, Vec) and isinstance(nxt, Vec):
            if kl and head.items is not None and nxt.items is not None and len(nxt.items) == len(head.items) + 1:
                return head
            if head.items is not None and nxt.items is not None and len(head.items) == len(nxt.items):
                it = [self.phify(lid, key + "[%d]" % i, x, x, y, kl, ctx) for i, (x, y) in enumerate(zip(head.items, nxt.items))]
                return Vec(items=it) if any(a is not b for a, b in zip(it, head.items)) else head
            if head.kdom is not None and nxt.kdom is head.kdom:
                el = self.phify(lid, key + "[k]", head.elem, head.elem, nxt.elem, kl, ctx)
                return head if el is head.elem else Vec(kdom=head.kdom, elem=el)
            n = self.phify(lid, key + ".size", head.size(), head.size(), nxt.size(), kl, ctx)
            ph = self.phi(lid, key)
            if head.n is not None and isinstance(head.body, T) and contains(head.body, lambda x: x is ph):
                return head if n is head.n else Vec(n=n, body=head.body)
            nb = nxt.items[-1] if nxt.items else nxt.body
            if isinstance(nb, T) or nb is None:
                return Vec(n=n, body=mk("el", ph, IX0))
            if head.n is not None and head.body is not None and not isinstance(head.body, T):
                hb = self.phify(lid, key + "[]", head.body, head.body, nb, kl, ctx)
                return head if (hb is head.body and n is head.n) else Vec(n=n, body=hb)
            return Vec(n=n, body=nb)
        if isinstance(head, It) and isinstance(nxt, It) and head.kind == "vec":
            if head.pos.op == "phi" and head.pos.args[0] == lid:
                return head
            return It("vec", head.cont, self.phi(lid, key))
        if isinstance(head, Ptr) and isinstance(nxt, Ptr):
            if head == nxt:
                return head
            if head.cell == nxt.cell and head.path == nxt.path:
                if head.off is not None and head.off.op == "phi":
                    return head
                return Ptr(head.cell, head.path, self.phi(lid, key))
            if nxt.cell >= ctx["mark"] and head.cell < ctx["mark"]:
                pc = self.phihandle.get((lid, key))
                if pc is None:
                    pc = self.ncell
                    self.ncell += 1
                    self.phihandle[(lid, key)] = pc
                    self.cellname[pc] = "phi:" + key
                    ctx["extra"][pc] = self.phify(lid, key + "*", ctx["st0"].get(head.cell), ctx["st0"].get(head.cell),
                                                  ctx["st1"].get(nxt.cell), kl, ctx)
                if head.cell == pc:
                    return head
                return Ptr(pc, head.path, head.off)
            return head
        if isinstance(head, Opq) and isinstance(nxt, Opq):
            if head.t is nxt.t or (head.t.op == "phi" and head.t.args[0] == lid):
                return head
            return Opq(self.phi(lid, key), head.cls)
        if isinstance(head, RefBox) or isinstance(head, (Fn, Null)):
            return head
        return head

    def collect(self, lid, out, key, init, head, nxt, st0, st1, st_head):
        """gather (phi, init, next, name) leaves"""
        if head is nxt and head is init:
            return
        if isinstance(head, T):
            if head.op == "phi" and head.args[0] == lid:
                out.append((head, init, nxt, key))
            return
        if isinstance(head, B):
            if head.lo is FALSE and head.hi is TRUE:
                a = atoms[head.v]
                if a.op == "phi" and a.args[0] == lid:
                    out.append((a, init, nxt, key))
            return
        if isinstance(head, Rec):
            for k, x in head.f.items():
                self.collect(lid, out, key + "." + k, init.f.get(k) if isinstance(init, Rec) else None, x,
                             nxt.f.get(k) if isinstance(nxt, Rec) else None, st0, st1, st_head)
        elif isinstance(head, View):
            if head.cell in self.phiinit and isinstance(nxt, View):
                a = st0.get(init.cell) if isinstance(init, View) and init.cell is not None else None
                b = st1.get(nxt.cell) if nxt.cell is not None else None
                h = st_head.get(head.cell)
                ph = self.phi(lid, key)
                for d in range(len(h.ext) if isinstance(h, Arr) else 0):
                    pe = h.ext[d]
                    if pe.op == "phi" and pe.args[0] == lid:
                        out.append((pe, a.ext[d] if isinstance(a, Arr) else None, b.ext[d] if isinstance(b, Arr) else None, key + ".ext"))
                out.append((ph, a, b, key))
                out.append((mk("phih", lid, key), init, nxt, key + "@handle"))
        elif isinstance(head, Map):
            for k, x in head.s.items():
                self.collect(lid, out, key + ("[%s]" % show(k) if isinstance(k, T) else str(k)), init.s.get(k) if isinstance(init, Map) else None, x,
                             nxt.s.get(k) if isinstance(nxt, Map) else None, st0, st1, st_head)
        elif isinstance(head, Arr):
            if isinstance(nxt, Arr) and nxt.body is not head.body:
                out.append((self.phi(lid, key), init, nxt, key))
        elif isinstance(head, Vec):
            if isinstance(head.n, T) and head.n.op == "phi":
                out.append((head.n, init.size() if isinstance(init, Vec) else None, nxt.size() if isinstance(nxt, Vec) else None, key + ".size"))
                out.append((self.phi(lid, key), init, nxt, key))
            elif isinstance(nxt, Vec) and head.items is not None and nxt.items is not None:
                for i, x in enumerate(head.items):
                    if i < len(nxt.items):
                        self.collect(lid, out, key + "[%d]" % i, init.items[i] if isinstance(init, Vec) and init.items and i < len(init.items) else None,
                                     x, nxt.items[i], st0, st1, st_head)
            elif head.n is not None and isinstance(nxt, Vec):
                if not isinstance(head.body, T) and head.body is not None:
                    self.collect(lid, out, key + "[]", init.body if isinstance(init, Vec) else None, head.body, nxt.body, st0, st1, st_head)
                else:
                    out.append((self.phi(lid, key), init, nxt, key))
            elif head.kdom is not None and isinstance(nxt, Vec):
                self.collect(lid, out, key + "[k]", init.elem if isinstance(init, Vec) else None, head.elem, nxt.elem, st0, st1, st_head)
        elif isinstance(head, It) and isinstance(head.pos, T) and head.pos.op == "phi":
            out.append((head.pos, init.pos if isinstance(init, It) else None, nxt.pos if isinstance(nxt, It) else None, key))
        elif isinstance(head, Ptr) and head.off is not None and head.off.op == "phi":
            out.append((head.off, init.off if isinstance(init, Ptr) else None, nxt.off if isinstance(nxt, Ptr) else None, key))
        elif isinstance(head, Opq) and head.t.op == "phi":
            out.append((head.t, init.t if isinstance(init, Opq) else None, nxt.t if isinstance(nxt, Opq) else None, key))

    def loop(self, kind, loc, cond, body, inc, count=None):
        """generic loop.  count=(cellptr, lo, hi): known counting loop (parallel_for)"""
        fr = self.frames[-1]
        st0, pc0 = self.st, self.pc
        self.nloop += 1
        lid = self.nloop
        mark = self.ncell
        heads = {}
        extra = {}
        mk0 = self.marks()
        sb, sc = fr.brk, fr.cont
        self.loopstack.append(lid)
        final = None
        try:
            for it in range(16):
                self.rewind(mk0)
                st = st0
                for c, v in heads.items():
                    st = st.set(c, v)
                for c, v in extra.items():
                    st = st.set(c, v)
                headst = st
                self.st, self.pc = st, pc0
                fr.brk, fr.cont = [], []
                back = None
                exitflow = None
                g = None
                try:
                    g = cond()
                    cst = self.st
                    cpc = self.pc
                    x = band(cpc, bnot(g))
                    if x is not FALSE:
                        exitflow = (x, cst, None)
                    self.pc = band(cpc, g)
                    if self.pc is FALSE:
                        self.pc = None
                        raise Dead()
                    try:
                        body()
                    except Dead:
                        self.pc = None
                    flows = list(fr.cont)
                    if self.pc is not None:
                        flows.append((self.pc, self.st, None))
                    self.mergeflows(flows)
                    if inc is not None:
                        inc()
                    back = (self.pc, self.st)
                except Dead:
                    back = None
                brk = list(fr.brk)
                if back is None:
                    final = (headst, None, exitflow, brk, g)
                    break
                changed = False
                ctx = {"st0": st0, "st1": back[1], "pairs": {}, "extra": extra, "mark": mark}
                nextra = len(extra)
                for c in list(PMap.diff(headst, back[1])):
                    if c >= mark:
                        continue
                    h = headst.get(c)
                    n = back[1].get(c)
                    if h is None or n is None:
                        continue
                    ctx["cell"] = c
                    nh = self.phify(lid, "%s:%d" % (self.cellname.get(c, "cell"), c), st0.get(c), h, n, False, ctx)
                    if nh is not h:
                        heads[c] = nh
                        changed = True
                if len(extra) != nextra:
                    changed = True
                if not changed:
                    final = (headst, back, exitflow, brk, g)
                    break
            else:
                self.note("loop did not stabilise at %s" % self.p.loc(loc))
                final = (headst, back, exitflow, brk, g)
        finally:
            self.loopstack.pop()
            fr.brk, fr.cont = sb, sc
        headst, back, exitflow, brk, g = final
        phis = []
        if back is not None:
            for c in set(list(heads) + list(PMap.diff(headst, back[1]))):
                if c >= mark:
                    continue
                nm = "%s:%d" % (self.cellname.get(c, "cell"), c)
                self.collect(lid, phis, nm, st0.get(c), headst.get(c), back[1].get(c), st0, back[1], headst)
        rec = LoopRec(id=lid, loc=self.p.loc(loc) if isinstance(loc, int) else loc, kind=kind, phis=phis, guard=g, pc=pc0,
                      fn=fr.fid, dom=None, back=back[0] if back else None)
        self.loops.append(rec)
        if exitflow is not None and not brk and back is not None:
            exitflow = self.closeloop(rec, exitflow, st0, headst, back, heads, mark, g, pc0)
        flows = list(brk)
        if exitflow is not None:
            flows.append(exitflow)
        self.mergeflows(flows)

    # -------- closed forms
    def closeloop(self, rec, exitflow, st0, headst, back, heads, mark, g, pc0):
        lid = rec.id
        if g is None:
            return exitflow
        ind = None
        for (ph, init, nxt, key) in rec.phis:
            if isinstance(nxt, T) and isinstance(init, T) and nxt is add(ph, ONE):
                sup = bsupport(g)
                if len(sup) == 1 and sup[0].op == "ilt" and sup[0].args[0] is ph and g.hi is TRUE and not hasphi(sup[0].args[1], lid):
                    ind = (ph, init, sup[0].args[1])
                    break
                if len(sup) == 1 and sup[0].op == "ieq" and g.lo is TRUE:
                    o = [a for a in sup[0].args if a is not ph]
                    if len(o) == 1 and not hasphi(o[0], lid):
                        ind = (ph, init, o[0])
                        break
                if len(sup) == 1 and sup[0].op == "ilt" and sup[0].args[1] is ph and g.lo is TRUE and g.hi is FALSE and not hasphi(sup[0].args[0], lid):
                    ind = (ph, init, add(sup[0].args[0], ONE))
                    break
        if ind is None:
            return exitflow
        ph, lo, hi = ind
        rec.kind = "count"
        rec.dom = ind
        m = {ph: hi}
        clos = {}
        for (p, init, nxt, key) in rec.phis:
            if p is ph or not isinstance(init, T) or not isinstance(nxt, T):
                continue
            d = delta(nxt, p)
            if d is not None and not containsT(d, p) and not hasphi(d, lid, ph):
                m[p] = add(init, bindsum("i", lo, hi, ph, d))
        st = exitflow[1]
        relpc = bconstrain(exitflow[0], pc0)
        for c in set(list(heads) + [x for x in PMap.diff(headst, back[1]) if x < mark]):
            h = headst.get(c)
            n = back[1].get(c)
            nv = self.closeval(rec, ind, m, st0.get(c), h, n, mark, back[1])
            if nv is not st.get(c):
                st = st.set(c, nv)
        for c, v in self._newcontents:
            st = st.set(c, v)
        self._newcontents = []
        # the exit test says nothing more than "counted to the end"
        return (pc0 if bexists(bnot(g), lambda a: False) is TRUE and relpc is not None and self.nothrow(back, pc0, g) else exitflow[0], st, None)

    _newcontents = []

    def nothrow(self, back, pc0, g):
        return back is not None and back[0] is band(pc0, g)

    def closeval(self, rec, ind, m, init, head, nxt, mark, bst):
        ph, lo, hi = ind
        lid = rec.id
        if head is None:
            return nxt
        if isinstance(head, (T, B)):
            return subst(head, m)
        if isinstance(head, Rec) and isinstance(nxt, Rec):
            return Rec(head.cls, {k: self.closeval(rec, ind, m, init.f.get(k) if isinstance(init, Rec) else None, x, nxt.f.get(k), mark, bst)
                                  for k, x in head.f.items()})
        if isinstance(head, Arr) and isinstance(nxt, Arr) and isinstance(init, Arr):
            b = self.closebody(rec, ind, m, init.body, head.body, nxt.body, len(head.ext), head.ext)
            if b is not None:
                return Arr(head.ext, head.stride, b)
            return Arr(head.ext, head.stride, subst(head.body, m))
        if isinstance(head, Vec) and isinstance(nxt, Vec):
            if head.n is not None and init is not None and isinstance(init, Vec) and init.n is head.n and nxt.n is head.n and isinstance(nxt.body, T) and isinstance(init.body, T):
                b = self.closebody(rec, ind, m, init.body, head.body, nxt.body, 1, (head.n,))
                if b is not None:
                    return Vec(n=head.n, body=b)
            # push_back once per iteration onto an empty vector
            if isinstance(init, Vec) and init.items == [] and head.n is not None and isinstance(nxt, Vec):
                pass
            return self.vsubst(head, m)
        if isinstance(head, Map) and isinstance(nxt, Map):
            d = dict(head.s)
            dom = head.dom
            for k, v in nxt.s.items():
                if k in d:
                    d[k] = self.closeval(rec, ind, m, init.s.get(k) if isinstance(init, Map) else None, d[k], v, mark, bst)
                elif isinstance(k, T) and k.op == "kidx" and k.args[1] is ph:
                    sm = {mk("kidx", n2, ph): K if n2 == k.args[0] else mk("kperm", n2, k.args[0], K) for n2 in COLLS}
                    d[K] = self.gen(v, sm, mark, bst)
                    full = isnum(lo) and lo.args[0] == 0 and hi.op == "nk"
                    dom = mk("ldom") if full else mk("partdom", lo, hi)
                else:
                    d[k] = v
                    dom = mk("weirddom", k) if isinstance(k, T) else dom
            return Map(dom, d)
        return self.vsubst(head, m) if not isinstance(head, (View, Ptr, RefBox, Fn, Fut)) else head

    def gen(self, v, sm, mark, bst):
        """generalise an inserted value over the key; also rewrites the cells it owns"""
        if isinstance(v, View) and v.cell is not None:
            if v.cell >= mark:
                a = bst.get(v.cell)
                self._newcontents.append((v.cell, self.vsubst(a, sm)))
                self.kcells.add(v.cell)
            s = subst(v.slice, sm) if v.slice is not None else None
            return View(v.cell, v.rank, None if s is K else s)
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.gen(x, sm, mark, bst) for k, x in v.f.items()})
        return self.vsubst(v, sm)

    def closebody(self, rec, ind, m, init, head, nxt, rank, ext):
        """closed form of an array body updated by a counting loop"""
        ph, lo, hi = ind
        lid = rec.id
        if not (isinstance(head, T) and head.op == "el" and isphi(head.args[0], lid)):
            return None
        A = head.args[0]
        p = head
        nxt = self.selfread(nxt, A, p, rank)
        # (a) additive accumulation
        d = delta(nxt, p)
        if d is not None and not containsT(d, A) and not hasphi(d, lid, ph):
            # pointwise in the counting index? then the sum collapses
            w = self.pointwise(d, ph, rank)
            if w is not None:
                c, val, dim = w
                return add(init, tite(band(c, self.inrange(dim, lo, hi, ext)), val, ZERO))
            if d.op == "ite" and isnum(d.args[2]) and d.args[2].args[0] == 0 and not containsT(d.args[0], ph):
                return add(init, tite(d.args[0], bindsum("i", lo, hi, ph, d.args[1]), ZERO))
            return add(init, bindsum("i", lo, hi, ph, d))
        # (b) pointwise overwrite
        if nxt.op == "ite":
            c, val, rest = nxt.args
            if val is p:
                c, val, rest = bnot(c), rest, val
            if rest is p:
                r = self.pw(c, val, p, A, ph, lid, rank, lo, hi, ext, init)
                if r is not None:
                    return r
        return None

    def selfread(self, nxt, A, p, rank):
        """x(i) += e under the guard ix0==i: the read of x(i) is a read of the element being written"""
        def go(t):
            if t is p:
                return FALSE, None
            if t.op == "ite":
                (c1, v1), (c2, v2) = go(t.args[1]), go(t.args[2])
                c = bite(t.args[0], c1, c2)
                return c, (v1 if v2 is None else v2 if v1 is None else tite(t.args[0], v1, v2))
            return TRUE, t
        c, val = go(nxt)
        if val is None or c is TRUE:
            return nxt
        rest = p
        nxt = tite(c, val, p)
        out = {}
        for t in leaves(val):
            if t.op == "el" and t.args[0] is A and t is not p:
                if all(t.args[1 + d] is IXS[d] or implies(c, ieq(IXS[d], t.args[1 + d])) for d in range(rank)):
                    out[t] = p
        return tite(c, subst(val, out), rest) if out else nxt

    def pointwise(self, d, ph, rank):
        if d.op == "ite" and isnum(d.args[1]) and d.args[1].args[0] == 0:
            c, e = bnot(d.args[0]), d.args[2]
            for dim in range(rank):
                if implies(c, ieq(IXS[dim], ph)):
                    mm = {ph: IXS[dim]}
                    return subst(c, mm), subst(e, mm), dim
        if d.op == "ite" and isnum(d.args[2]) and d.args[2].args[0] == 0:
            for dim in range(rank):
                if implies(d.args[0], ieq(IXS[dim], ph)):
                    mm = {ph: IXS[dim]}
                    return subst(d.args[0], mm), subst(d.args[1], mm), dim
        return None

    def inrange(self, dim, lo, hi, ext):
        c = TRUE
        if not (isnum(lo) and lo.args[0] == 0):
            c = band(c, bnot(ilt(IXS[dim], lo)))
        if hi is not ext[dim]:
            c = band(c, ilt(IXS[dim], hi))
        return c

    def pw(self, c, val, p, A, ph, lid, rank, lo, hi, ext, init):
        for dim in range(rank):
            if implies(c, ieq(IXS[dim], ph)):
                mm = {ph: IXS[dim]}
                c2 = subst(c, mm)
                v2 = subst(val, mm)
                c2 = band(c2, self.inrange(dim, lo, hi, ext))
                # reads of the array itself must be at the element being written (dimension dim)
                bad = [False]

                def rep(x):
                    out = {}
                    for t in leaves(x):
                        if t.op == "el" and t.args[0] is A:
                            if t.args[1 + dim] is IXS[dim]:
                                out[t] = subst(init, {IXS[i]: t.args[1 + i] for i in range(rank)})
                            else:
                                bad[0] = True
                    return subst(x, out) if out else x
                v3 = rep(v2)
                c3 = rep(c2)
                if bad[0] or containsT(v3, A) or containsT(c3, A) or hasphi(v3, lid) or hasphi(c3, lid):
                    continue
                return tite(c3, v3, init)
        return None

    # ------------------------------------------------------------ k-point loops
    def kloop(self, it, itp, body, loc):
        """loop over the entries of a map (or per-k vector): the body is analysed once for the generic key"""
        fr = self.frames[-1]
        cont = self.load(it.cont)
        if isinstance(cont, Map):
            dom = cont.dom if cont.dom is not None else mk("emptydom")
        else:
            dom = cont.kdom
        self.kdepth += 1
        key = K if self.kdepth == 1 else mk("Kn", self.kdepth)
        st0, pc0 = self.st, self.pc
        self.nloop += 1
        lid = self.nloop
        mark = self.ncell
        heads = {}
        extra = {}
        mk0 = self.marks()
        sb, sc = fr.brk, fr.cont
        self.loopstack.append(lid)
        brk = []
        back = None
        try:
            for npass in range(12):
                self.rewind(mk0)
                st = st0
                for c, v in list(heads.items()) + list(extra.items()):
                    st = st.set(c, v)
                headst = st
                self.st, self.pc = st, pc0
                fr.brk, fr.cont = [], []
                back = None
                try:
                    self.store(itp, It(it.kind, it.cont, ("key", key)))
                    try:
                        body()
                    except Dead:
                        self.pc = None
                    flows = list(fr.cont)
                    if self.pc is not None:
                        flows.append((self.pc, self.st, None))
                    self.mergeflows(flows)
                    back = (self.pc, self.st)
                except Dead:
                    back = None
                brk = list(fr.brk)
                if back is None:
                    break
                changed = False
                ctx = {"st0": st0, "st1": back[1], "pairs": {}, "extra": extra, "mark": mark}
                for c in list(PMap.diff(headst, back[1])):
                    if c >= mark or c == itp.cell:
                        continue
                    h = headst.get(c)
                    n = back[1].get(c)
                    if h is None or n is None:
                        continue
                    if isinstance(h, Arr) and c in self.kcells:
                        continue
                    ctx["cell"] = c
                    nh = self.phify(lid, "%s:%d" % (self.cellname.get(c, "cell"), c), st0.get(c), h, n, True, ctx)
                    if nh is not h:
                        heads[c] = nh
                        changed = True
                if not changed:
                    break
        finally:
            self.loopstack.pop()
            self.kdepth -= 1
            fr.brk, fr.cont = sb, sc
        phis = []
        if back is not None:
            for c in set(list(heads) + list(PMap.diff(headst, back[1]))):
                if c < mark and c != itp.cell:
                    self.collect(lid, phis, "%s:%d" % (self.cellname.get(c, "cell"), c), st0.get(c), headst.get(c), back[1].get(c), st0, back[1], headst)
        rec = LoopRec(id=lid, loc=self.p.loc(loc) if isinstance(loc, int) else loc, kind="k", phis=phis, guard=TRUE, pc=pc0, fn=fr.fid, dom=dom,
                      back=back[0] if back else None)
        self.loops.append(rec)
        if back is None:
            # body always leaves: either by break or by throw/return
            flows = brk + [(pc0, st0, None)]
            self.mergeflows(flows)
            return
        if brk:
            self.event("kbreak", (dom,), loc)
        m = {}
        for (p, init, nxt, nm) in phis:
            if isinstance(init, T) and isinstance(nxt, T):
                d = delta(nxt, p)
                if d is not None and not hasphi(d, lid):
                    if brk:
                        d = mk("kbrk", d)
                    m[p] = add(init, bindsum("k", dom, ZERO, key, d))
        st = back[1]
        for c in set(list(heads) + [x for x in PMap.diff(headst, back[1]) if x < mark]):
            if c == itp.cell:
                continue
            h, n = headst.get(c), back[1].get(c)
            st = st.set(c, self.closek(m, st0.get(c), h, n, dom if not brk else mk("partdom", dom)))
        # values living in cells created by the iteration may mention the phis: leave them
        self.pc = bconstrain_keep(back[0], pc0)
        self.st = st

    def closek(self, m, init, head, nxt, dom):
        if head is None:
            return nxt
        if isinstance(head, (T, B)):
            return subst(head, m) if head is not nxt else head
        if isinstance(head, Rec) and isinstance(nxt, Rec):
            return Rec(head.cls, {k: self.closek(m, init.f.get(k) if isinstance(init, Rec) else None, head.f.get(k), x, dom) for k, x in nxt.f.items()})
        if isinstance(head, Map) and isinstance(nxt, Map):
            if K in nxt.s and (K not in head.s or nxt.s[K] is not head.s.get(K)):
                return Map(head.dom if head.dom is not None and K in head.s else dom, dict(nxt.s))
            return Map(nxt.dom, {k: self.closek(m, init.s.get(k) if isinstance(init, Map) else None, head.s.get(k), x, dom) for k, x in nxt.s.items()})
        if isinstance(head, Vec) and isinstance(nxt, Vec):
            if head.items == [] and nxt.items is not None and len(nxt.items) == 1:
                return Vec(kdom=dom, elem=nxt.items[0])
            if head.items is not None and nxt.items is not None and len(nxt.items) != len(head.items):
                self.note("vector growth in k loop")
            return nxt
        return nxt


def bconstrain_keep(pc, pc0):
    return pc


class RefBox(Val):
    """reference stored as a member / capture"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "ref(%r)" % (self.p,)


class Choice(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


# ---------------------------------------------------------------- helpers on terms
def addends(t, sg=1):
    if t.op == "add":
        yield from addends(t.args[0], sg)
        yield from addends(t.args[1], sg)
    elif t.op == "neg":
        yield from addends(t.args[0], -sg)
    else:
        yield t, sg


def factor(t, s):
    """t / s when t is a product containing s"""
    if t is s:
        return ONE
    if t.op == "mul":
        a, b = t.args
        f = factor(a, s)
        if f is not None:
            return mul(f, b)
        f = factor(b, s)
        if f is not None:
            return mul(a, f)
    return None


def delta(nxt, p):
    """nxt - p when nxt = p + e syntactically, else None"""
    if nxt is p:
        return ZERO
    if nxt.op == "add":
        a, b = nxt.args
        d = delta(a, p)
        if d is not None and not containsT(b, p):
            return add(d, b)
        d = delta(b, p)
        if d is not None and not containsT(a, p):
            return add(d, a)
        return None
    if nxt.op == "ite":
        d1 = delta(nxt.args[1], p)
        d2 = delta(nxt.args[2], p)
        if d1 is not None and d2 is not None and not containsT(nxt.args[0], p):
            return tite(nxt.args[0], d1, d2)
    return None


def isphi(t, lid):
    if t.op == "at":
        t = t.args[0]
    return t.op == "phi" and t.args[0] == lid


def hasphi(t, lid, but=None):
    return contains(t, lambda x: x.op == "phi" and x.args[0] == lid and x is not but)
