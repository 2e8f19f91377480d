"""Primitives with a model of files, string streams and json documents, for the analysis of logging."""
from interp import *
from prims import Prims


def isjson(cn):
    return cn.startswith("nlohmann::") and cn.split("<")[0].endswith("basic_json")


FILES = ("std::basic_ofstream", "std::basic_fstream")
SSTREAMS = ("std::basic_stringstream", "std::basic_ostringstream")


class LogPrims(Prims):
    def default(self, I, cn, typ, c):
        if isjson(cn):
            return Map(None, {})
        if cn in SSTREAMS:
            return Rec(c, {"txt": mk("str", "")})
        if cn in FILES:
            return Rec(c, {"file": mk("str", "")})
        return Prims.default(self, I, cn, typ, c)

    def openf(self, I, c, args, loc):
        nm = self.val(I, args[0]) if args else mk("str", "")
        if args:
            mode = self.val(I, args[1]) if len(args) > 1 else num(48)
            I.event("io", ("open", nm if isinstance(nm, T) else mk("str", "?"), mode), loc)
        return Rec(c, {"file": nm if isinstance(nm, T) else mk("str", "?")})

    def make(self, I, c, t, args, loc):
        cn = self.p.C[c]["name"]
        if cn in FILES:
            return self.openf(I, c, args, loc)
        return Prims.make(self, I, c, t, args, loc)

    def ctor(self, I, f, cn, typ, args, kind, loc):
        if cn in FILES and kind not in ("copy", "move"):
            return self.openf(I, f["cls"], args, loc)
        if cn in SSTREAMS and kind not in ("copy", "move"):
            v = self.val(I, args[0]) if args else None
            return Rec(f["cls"], {"txt": v if isinstance(v, T) and v.op in ("str", "strcat", "strof") else mk("str", "")})
        if isjson(cn):
            a = [x for x in args if not isinstance(self.val(I, x), Null)]
            return self.val(I, a[0]) if a else Map(None, {})
        return Prims.ctor(self, I, f, cn, typ, args, kind, loc)

    def call(self, I, fid, f, name, args, this, loc, typ=None):
        if f.get("cls") is not None and f["cls"] >= 0 and not f.get("ctor"):
            cn = self.p.C[f["cls"]]["name"]
            m = f["short"]
            if isjson(cn):
                if m in ("operator[]", "at"):
                    k = self.val(I, args[0])
                    if isinstance(k, T):
                        v = self.val(I, this)
                        if isinstance(v, Map) and k not in v.s and m == "operator[]":
                            d = dict(v.s)
                            d[k] = Map(None, {})
                            I.store(this, Map(v.dom, d))
                        return I.sub(this, ("key", k))
                if m == "operator=":
                    I.store(this, self.val(I, args[0]))
                    return this
                if m in ("operator+=", "push_back", "emplace_back"):
                    I.event("jadd", (this, self.val(I, args[0])), loc)
                    return this if m == "operator+=" else None
            if cn in SSTREAMS and m == "str":
                v = self.val(I, this)
                if isinstance(v, Rec) and "txt" in v.f:
                    if not args:
                        return v.f["txt"]
                    x = self.val(I, args[0])
                    I.store(this, v.set("txt", x if isinstance(x, T) else mk("str", "?")))
                    return None
            if cn in FILES and m == "open":
                I.store(this, self.openf(I, f["cls"], args, loc))
                return None
        return Prims.call(self, I, fid, f, name, args, this, loc, typ)

    def f_call_once(self, I, f, a, loc):
        if self.val1(I, a[0]) is ONE:
            return None
        I.invoke(a[1], a[2:], loc)
        I.store(a[0], ONE)
        return None

    def oper(self, I, f, short, args, loc):
        if short == "operator<<" and len(args) == 2:
            v = self.val(I, args[0]) if not isinstance(args[0], T) else None
            x = self.val(I, args[1])
            if isinstance(v, Rec) and "txt" in v.f:
                piece = x if isinstance(x, T) else mk("strof", I.fresh("piece")) if not isinstance(x, B) else tite(x, ONE, ZERO)
                if isinstance(x, Opq):
                    piece = mk("manip", x.t)
                I.store(args[0], v.set("txt", piece if v.f["txt"] is mk("str", "") else mk("strcat", v.f["txt"], piece)))
                return args[0]
            if isinstance(v, Rec) and "file" in v.f:
                I.event("write", {"file": v.f["file"], "value": x}, loc)
                return args[0]
            if isinstance(v, Opq) or v is None:
                I.event("stream", (v, x), loc)
                return args[0]
            I.event("write", {"file": mk("str", "?"), "value": x}, loc)
            return args[0]
        return Prims.oper(self, I, f, short, args, loc)
