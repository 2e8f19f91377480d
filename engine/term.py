"""Hash-consed terms, BDD guards, persistent maps: the value domain of the
gated value-flow analysis."""
from fractions import Fraction

# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "args", "id", "_h", "fv")

    def __repr__(self):
        return show(self)


class OSet(dict):
    """set of terms with insertion order (iteration does not depend on addresses)"""
    __slots__ = ()

    def __init__(self, it=()):
        dict.__init__(self, dict.fromkeys(it))

    def add(self, x):
        self[x] = None

    def discard(self, x):
        self.pop(x, None)

    def __or__(self, o):
        r = OSet(self)
        for x in o:
            r[x] = None
        return r

    def __and__(self, o):
        return OSet(x for x in self if x in o)

    def __sub__(self, o):
        return OSet(x for x in self if x not in o)

    __isub__ = __sub__
    __ior__ = __or__
    __iand__ = __and__


class B:
    __slots__ = ("v", "lo", "hi", "id", "fv")

    def __repr__(self):
        return showb(self)



_tab = {}
_n = [0]
# leaves that substitutions replace; T.fv is a bit-mask over-approximating the ones a term mentions
KEYABLE = frozenset(("ix", "K", "Kn", "bv", "phi", "phih", "sym", "kidx"))


IXMASK = 15 << 509
KMASK = 1 << 513


def keybit(op, tid, args):
    if op == "ix":
        return 1 << (509 + args[0])
    if op == "K":
        return KMASK
    return 1 << (tid % 509)


def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _n[0] += 1
        t.id = _n[0]
        f = keybit(op, t.id, args) if op in KEYABLE else 0
        for a in args:
            if isinstance(a, (T, B)):
                f |= a.fv
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, (T, B)):
                        f |= b.fv
        if op == "mat":
            f &= ~IXMASK
        elif op == "W":
            f &= ~KMASK
        t.fv = f
        _tab[key] = t
    return t


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(repr(x))
    elif isinstance(x, str):
        x = Fraction(repr(float(x)))
    else:
        x = Fraction(x)
    return mk("num", x)




ZERO = num(0)
ONE = num(1)


def isnum(t):
    return isinstance(t, T) and t.op == "num"


TRUE = B()
TRUE.v = 1 << 60
TRUE.lo = TRUE.hi = None
TRUE.id = 1
TRUE.fv = 0
FALSE = B()
FALSE.v = 1 << 60
FALSE.lo = FALSE.hi = None
FALSE.id = 0
FALSE.fv = 0
_bt = {}
_bn = [2]
_ite = {}
atoms = []       # level -> atom term
_alev = {}


def _node(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    n = _bt.get(k)
    if n is None:
        n = B()
        n.v = v
        n.lo = lo
        n.hi = hi
        n.fv = atoms[v].fv | lo.fv | hi.fv
        n.id = _bn[0]
        _bn[0] += 1
        _bt[k] = n
    return n


def atom(t):
    l = _alev.get(t)
    if l is None:
        l = len(atoms)
        atoms.append(t)
        _alev[t] = l
    return _node(l, FALSE, TRUE)


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    if f is g:
        g = TRUE
    if f is h:
        h = FALSE
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(f.v, g.v, h.v)
    f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
    g0, g1 = (g.lo, g.hi) if g.v == v else (g, g)
    h0, h1 = (h.lo, h.hi) if h.v == v else (h, h)
    r = _node(v, bite(f0, g0, h0), bite(f1, g1, h1))
    _ite[k] = r
    return r


def band(a, b):
    return bite(a, b, FALSE)


def bor(a, b):
    return bite(a, TRUE, b)


def bnot(a):
    return bite(a, FALSE, TRUE)


def bimp(a, b):
    return bite(a, b, TRUE)


def implies(a, b):
    return bite(a, b, TRUE) is TRUE


def bsupport(b):
    seen = set()
    lv = set()
    st = [b]
    while st:
        n = st.pop()
        if n.lo is None or n.id in seen:
            continue
        seen.add(n.id)
        lv.add(n.v)
        st.append(n.lo)
        st.append(n.hi)
    return [atoms[l] for l in sorted(lv)]


def brestrict(b, asg, memo=None):
    """asg: dict atom->bool"""
    if memo is None:
        memo = {}
        asg = {_alev[a]: v for a, v in asg.items() if a in _alev}
    if b.lo is None:
        return b
    r = memo.get(b.id)
    if r is not None:
        return r
    if b.v in asg:
        r = brestrict(b.hi if asg[b.v] else b.lo, asg, memo)
    else:
        r = _node2(b.v, brestrict(b.lo, asg, memo), brestrict(b.hi, asg, memo))
    memo[b.id] = r
    return r


def _node2(v, lo, hi):
    return _node(v, lo, hi)


def bexists(b, keep):
    """existentially quantify every atom for which keep(atom) is False"""
    memo = {}

    def go(n):
        if n.lo is None:
            return n
        r = memo.get(n.id)
        if r is None:
            lo = go(n.lo)
            hi = go(n.hi)
            if keep(atoms[n.v]):
                r = bite(_node(n.v, FALSE, TRUE), hi, lo)
            else:
                r = bor(lo, hi)
            memo[n.id] = r
        return r
    return go(b)


def bmap(b, f):
    """rebuild b with each atom t replaced by the BDD f(t)"""
    memo = {}

    def go(n):
        if n.lo is None:
            return n
        r = memo.get(n.id)
        if r is None:
            r = bite(f(atoms[n.v]), go(n.hi), go(n.lo))
            memo[n.id] = r
        return r
    return go(b)


def bcubes(b, limit=64):
    """list of cubes (dict atom->bool) covering b"""
    out = []

    def go(n, cur):
        if len(out) >= limit:
            return
        if n is TRUE:
            out.append(dict(cur))
            return
        if n is FALSE:
            return
        a = atoms[n.v]
        cur[a] = True
        go(n.hi, cur)
        cur[a] = False
        go(n.lo, cur)
        del cur[a]
    go(b, {})
    return out


# ---------------------------------------------------------------- arithmetic
def neg(a):
    if isnum(a):
        return num(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def add(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] + b.args[0])
    if isnum(a) and a.args[0] == 0:
        return b
    if isnum(b) and b.args[0] == 0:
        return a
    if isnum(b) and a.op == "add" and isnum(a.args[1]):
        return add(a.args[0], num(a.args[1].args[0] + b.args[0]))
    if isnum(a):
        return add(b, a)
    return mk("add", a, b)


def sub(a, b):
    if a is b and a.op in ("sym", "phi", "lv", "ext"):
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x.args[0] == 1:
                return y
            if x.args[0] == -1:
                return neg(y)
            if x.args[0] == 0:
                return ZERO
    if isnum(b):
        a, b = b, a
    return mk("mul", a, b)


def div(a, b):
    if isnum(b) and b.args[0] == 1:
        return a
    if isnum(a) and isnum(b) and b.args[0] != 0:
        return num(a.args[0] / b.args[0])
    return mk("div", a, b)


# comparisons -> BDD.  Float comparisons are NaN-aware: FLT/FLE/FEQ are three
# distinct atoms over a pair and none is the negation of another.
def _cmpconst(op, a, b):
    x, y = a.args[0], b.args[0]
    return TRUE if {"lt": x < y, "le": x <= y, "eq": x == y}[op] else FALSE


def flt(a, b):
    if isnum(a) and isnum(b):
        return _cmpconst("lt", a, b)
    return atom(mk("flt", a, b))


def fle(a, b):
    if isnum(a) and isnum(b):
        return _cmpconst("le", a, b)
    return atom(mk("fle", a, b))


def feq(a, b):
    if isnum(a) and isnum(b):
        return _cmpconst("eq", a, b)
    if a.id > b.id:
        a, b = b, a
    return atom(mk("feq", a, b))


def ilt(a, b):
    if isnum(a) and isnum(b):
        return _cmpconst("lt", a, b)
    if a is b:
        return FALSE
    d = _idiff(a, b)
    if d is not None:
        return TRUE if d < 0 else FALSE
    return atom(mk("ilt", a, b))


def _idiff(a, b):
    """a-b if statically constant"""
    def sp(t):
        if t.op == "add" and isnum(t.args[1]):
            return t.args[0], t.args[1].args[0]
        return t, Fraction(0)
    x, cx = sp(a)
    y, cy = sp(b)
    if x is y:
        return cx - cy
    return None


def ieq(a, b):
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return _cmpconst("eq", a, b)
    d = _idiff(a, b)
    if d is not None:
        return TRUE if d == 0 else FALSE
    if a.op in ("const", "estr") and b.op in ("const", "estr") and a.op == b.op:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and isinstance(x.args[0], B):
            p = ieq(x.args[1], y)
            q = ieq(x.args[2], y)
            return bite(x.args[0], p, q)
    if a.id > b.id:
        a, b = b, a
    return atom(mk("ieq", a, b))


def tite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.lo is not None:
        if a.op == "ite":
            if implies(c, a.args[0]):
                return tite(c, a.args[1], b)
            if implies(c, bnot(a.args[0])):
                return tite(c, a.args[2], b)
        if b.op == "ite":
            nc = bnot(c)
            if implies(nc, b.args[0]):
                return tite(c, a, b.args[1])
            if implies(nc, bnot(b.args[0])):
                return tite(c, a, b.args[2])
            if b.args[1] is a:
                return tite(bor(c, b.args[0]), a, b.args[2])
            if b.args[2] is a:
                return tite(bor(c, bnot(b.args[0])), a, b.args[1])
        if a.op == "ite":
            if a.args[1] is b:
                return tite(band(c, bnot(a.args[0])), a.args[2], b)
            if a.args[2] is b:
                return tite(band(c, a.args[0]), a.args[1], b)
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- substitution
def rebuild(op, args):
    """re-apply smart constructors"""
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "neg":
        return neg(*args)
    if op == "div":
        return div(*args)
    if op == "ite":
        return tite(*args)
    if op == "sum":
        return mksum(*args)
    if op == "el":
        return elread(*args)
    return mk(op, *args)


def atom_rebuild(t):
    f = {"flt": flt, "fle": fle, "feq": feq, "ilt": ilt, "ieq": ieq}.get(t.op)
    if f:
        return f(*t.args)
    return atom(t)


def subst(t, m, memo=None):
    """t: T or B; m: dict T->T"""
    if memo is None:
        memo = {}
    mask = memo.get("mask")
    if mask is None:
        mask = 0
        for k in m:
            if k.op not in KEYABLE:
                mask = -1
                break
            mask |= keybit(k.op, k.id, k.args)
        memo["mask"] = mask
    if isinstance(t, (T, B)) and not t.fv & mask and mask != -1:
        return t
    if isinstance(t, B):
        r = memo.get(("b", t.id))
        if r is None:
            def f(a):
                if a in m:
                    x = m[a]
                    return x if isinstance(x, B) else atom(x)
                s = _substargs(a, m, memo)
                return atom(a) if s is a else atom_rebuild(s)
            r = bmap(t, f)
            memo[("b", t.id)] = r
        return r
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "mat":       # binds the index symbols
        mm = memo.get("inmat")
        if mm is None:
            mm = ({k: v for k, v in m.items() if k.op != "ix"}, {})
            memo["inmat"] = mm
        if mm[0]:
            b = subst(t.args[0], mm[0], mm[1])
            r = t if b is t.args[0] else mk("mat", b)
        else:
            r = t
        memo[t] = r
        return r
    if t.op == "W" and K in m:      # a backend state is a functional of whole k-indexed arrays: binds K
        mm = memo.get("inW")
        if mm is None:
            mm = ({k: v for k, v in m.items() if k is not K}, {})
            memo["inW"] = mm
        r = subst(t, mm[0], mm[1]) if mm[0] else t
        memo[t] = r
        return r
    s = _substargs(t, m, memo)
    r = t if s is t else rebuild(s.op, s.args)
    memo[t] = r
    return r


class _Raw:
    __slots__ = ("op", "args")


def _substargs(t, m, memo):
    ch = False
    out = []
    for a in t.args:
        if isinstance(a, (T, B)):
            b = subst(a, m, memo)
            if b is not a:
                ch = True
            out.append(b)
        elif isinstance(a, tuple):
            b = tuple(subst(x, m, memo) if isinstance(x, (T, B)) else x for x in a)
            if b != a:
                ch = True
            out.append(b)
        else:
            out.append(a)
    if not ch:
        return t
    r = _Raw()
    r.op = t.op
    r.args = tuple(out)
    return r


def leaves(t, seen=None):
    """iterate over all sub-terms (T) of a T/B"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, B):
            if ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            st.extend(bsupport(x))
            continue
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T):
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def contains(t, pred):
    for x in leaves(t):
        if pred(x):
            return True
    return False


def containsT(t, target):
    return contains(t, lambda x: x is target)


IX0 = mk("ix", 0)
IX1 = mk("ix", 1)
IXS = (IX0, IX1, mk("ix", 2), mk("ix", 3))
K = mk("K")


def bvh(t):
    """height for canonical bound variables"""
    h = 0
    for x in leaves(t):
        if x.op == "bv":
            h = max(h, x.args[0] + 1)
    return h


def mksum(kind, lo, hi, bv, body):
    """sum over bv in [lo,hi) (kind 'i') or over k-point domain lo (kind 'k')"""
    if isnum(body) and body.args[0] == 0:
        return ZERO
    return mk("sum", kind, lo, hi, bv, body)


def bindsum(kind, lo, hi, var, body):
    h = bvh(body)
    bv = mk("bv", h)
    return mksum(kind, lo, hi, bv, subst(body, {var: bv}))


def elread(a, *ix):
    """element read; beta-reduces materialised arrays"""
    if isinstance(a, T) and a.op == "mat":
        return subst(a.args[0], {IXS[i]: ix[i] for i in range(len(ix))})
    return mk("el", a, *ix)


def mkmat(body, rank):
    """array term from a body over ix symbols"""
    if isinstance(body, T) and body.op == "el" and body.args[1:] == IXS[:rank] and not _uses_ix(body.args[0]):
        return body.args[0]
    return mk("mat", body)


def _uses_ix(t):
    return contains(t, lambda x: x.op == "ix")


# ---------------------------------------------------------------- printing
def show(t, d=0, lim=10):
    if isinstance(t, B):
        return showb(t)
    if not isinstance(t, T):
        return str(t)
    if t.op == "num":
        f = t.args[0]
        return str(f) if f.denominator < 10000 else repr(float(f))
    if t.op in ("sym", "const", "estr", "str"):
        return str(t.args[0])
    if t.op == "ix":
        return "i%d" % t.args[0]
    if d > lim:
        return "…"
    a = [show(x, d + 1, lim) if isinstance(x, (T, B)) else str(x) for x in t.args]
    if t.op == "add":
        return "(%s + %s)" % tuple(a)
    if t.op == "mul":
        return "(%s*%s)" % tuple(a)
    if t.op == "neg":
        return "-%s" % a[0]
    if t.op == "div":
        return "(%s/%s)" % tuple(a)
    if t.op == "flt" or t.op == "ilt":
        return "%s<%s" % tuple(a)
    if t.op == "fle":
        return "%s<=%s" % tuple(a)
    if t.op == "feq" or t.op == "ieq":
        return "%s==%s" % tuple(a)
    if t.op == "K":
        return "K"
    return "%s(%s)" % (t.op, ", ".join(a))


def showb(b, lim=6):
    if b is TRUE:
        return "true"
    if b is FALSE:
        return "false"
    cs = bcubes(b, lim + 1)
    s = " | ".join(" & ".join(("" if v else "!") + show(a, 4) for a, v in c.items()) for c in cs[:lim])
    return "{%s%s}" % (s, " | ..." if len(cs) > lim else "")


# ---------------------------------------------------------------- persistent int map
_E = [None] * 32


class PMap:
    __slots__ = ("r",)

    def __init__(self, r=None):
        self.r = r

    def get(self, k):
        n = self.r
        if n is None:
            return None
        n = n[(k >> 15) & 31]
        if n is None:
            return None
        n = n[(k >> 10) & 31]
        if n is None:
            return None
        n = n[(k >> 5) & 31]
        if n is None:
            return None
        return n[k & 31]

    def set(self, k, v):
        r = self.r
        a = list(r) if r is not None else [None] * 32
        i = (k >> 15) & 31
        b = a[i]
        b = list(b) if b is not None else [None] * 32
        a[i] = b
        i = (k >> 10) & 31
        c = b[i]
        c = list(c) if c is not None else [None] * 32
        b[i] = c
        i = (k >> 5) & 31
        d = c[i]
        d = list(d) if d is not None else [None] * 32
        c[i] = d
        d[k & 31] = v
        return PMap(a)

    @staticmethod
    def merge(a, b, f):
        def go(x, y, lvl):
            if x is y:
                return x
            if x is None:
                return y
            if y is None:
                return x
            if lvl == 0:
                return f(x, y)
            return [go(p, q, lvl - 1) for p, q in zip(x, y)]
        return PMap(go(a.r, b.r, 4))

    @staticmethod
    def diff(a, b):
        """yield keys whose values differ by identity"""
        def go(x, y, lvl, pre):
            if x is y:
                return
            if lvl == 0:
                yield pre
                return
            for i in range(32):
                p = x[i] if x is not None else None
                q = y[i] if y is not None else None
                if p is not q:
                    yield from go(p, q, lvl - 1, (pre << 5) | i)
        yield from go(a.r, b.r, 4, 0)
