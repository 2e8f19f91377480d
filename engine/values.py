"""Abstract values other than scalar terms."""
from term import *


class Val:
    __slots__ = ()


class Undef(Val):
    __slots__ = ()


class Rec(Val):
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def set(self, name, v):
        d = dict(self.f)
        d[name] = v
        return Rec(self.cls, d)

    def __repr__(self):
        return "{%s}" % ", ".join("%s=%r" % x for x in self.f.items())


class Ptr(Val):
    """pointer or reference: cell + access path + element offset (None: not an array pointer)"""
    __slots__ = ("cell", "path", "off")

    def __init__(self, cell, path=(), off=None):
        self.cell = cell
        self.path = path
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path and self.off is o.off

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return "&%d%s%s" % (self.cell, "".join("." + str(p) for p in self.path), "" if self.off is None else "[%r]" % (self.off,))


class PtrSel(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Null(Val):
    __slots__ = ()

    def __repr__(self):
        return "null"


NULL = Null()


class Fn(Val):
    __slots__ = ("fid",)

    def __init__(self, fid):
        self.fid = fid

    def __repr__(self):
        return "fn%d" % self.fid


class Bound(Val):
    __slots__ = ("fn", "args")

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


class Fut(Val):
    """deferred future; cell holds Rec {done,val,fn}"""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class Vec(Val):
    """std::vector / list / array of unknown length.
    items: concrete list; or n + body (scalar body over IX0); or kdom + elem (one element per k-point of kdom)"""
    __slots__ = ("items", "n", "body", "kdom", "elem")

    def __init__(self, items=None, n=None, body=None, kdom=None, elem=None):
        self.items = items
        self.n = n
        self.body = body
        self.kdom = kdom
        self.elem = elem

    def size(self):
        if self.items is not None:
            return num(len(self.items))
        if self.kdom is not None:
            return mk("count", self.kdom)
        return self.n

    def __repr__(self):
        if self.items is not None:
            return "vec%r" % (self.items,)
        if self.kdom is not None:
            return "veck(%r: %r)" % (self.kdom, self.elem)
        return "vec(%r: %r)" % (self.n, self.body)


class Map(Val):
    __slots__ = ("dom", "s")

    def __init__(self, dom, s):
        self.dom = dom        # None when only concrete keys
        self.s = s

    def __repr__(self):
        return "map[%r]%r" % (self.dom, self.s)


class View(Val):
    """handle to an array cell"""
    __slots__ = ("cell", "rank", "slice")

    def __init__(self, cell, rank, slice=None):
        self.cell = cell
        self.rank = rank
        self.slice = slice

    def __repr__(self):
        return "view@%s%s" % (self.cell, "" if self.slice is None else "{%r}" % self.slice)


class Arr(Val):
    """array content: extents, strides, scalar body over IX0.."""
    __slots__ = ("ext", "stride", "body")

    def __init__(self, ext, stride, body):
        self.ext = ext
        self.stride = stride
        self.body = body

    def __repr__(self):
        return "arr(%s: %r)" % ("x".join(show(e) for e in self.ext), self.body)


class It(Val):
    """iterator: over map ('begin','cur','end') or vector (index)"""
    __slots__ = ("kind", "cont", "pos")

    def __init__(self, kind, cont, pos):
        self.kind = kind      # 'map' | 'vec'
        self.cont = cont      # Ptr to container
        self.pos = pos        # 'begin'|'cur'|'end' or term

    def __repr__(self):
        return "it(%s,%r,%r)" % (self.kind, self.cont, self.pos)


class Opq(Val):
    """opaque object with identity term"""
    __slots__ = ("t", "cls")

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls

    def __repr__(self):
        return "<%r>" % (self.t,)


def bconstrain(f, c):
    """simplify f using care set c (sibling-substitution restrict)"""
    memo = {}

    def go(f, c):
        if c is TRUE or f.lo is None:
            return f
        if c is FALSE:
            return FALSE
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        if c.v < f.v:
            r = go(f, bor(c.lo, c.hi))
        elif f.v < c.v:
            x = go(f.lo, c)
            y = go(f.hi, c)
            r = _mkn(f.v, x, y)
        else:
            if c.lo is FALSE:
                r = go(f.hi, c.hi)
            elif c.hi is FALSE:
                r = go(f.lo, c.lo)
            else:
                r = _mkn(f.v, go(f.lo, c.lo), go(f.hi, c.hi))
        memo[k] = r
        return r
    return go(f, c)


def _mkn(v, lo, hi):
    import term
    return term._node(v, lo, hi)
