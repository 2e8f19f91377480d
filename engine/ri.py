"""Random interpretation of the extracted value graph.

A World assigns numbers to the free symbols of the value graph (backend arrays, parameters, loop
phis) for a small configuration (a few k-points spread over two ranks, a few bands / plane waves) and
evaluates terms homomorphically.  Uninterpreted backend quantities are smooth pseudo-random functions of
their arguments, so two terms agree in a random world iff they denote the same value (up to a
probability that is negligible), independent of how the source spells the computation."""
import cmath
import hashlib
import math
import os
import struct
from fractions import Fraction
import numpy as np
from term import *


class Undecided(Exception):
    """a term whose meaning the analysis does not know"""


class Undef(Exception):
    """an uninitialised value is read"""


SALT = os.environ.get("NLCG_SALT", "")       # development: other random points


def h01(*key):
    d = hashlib.md5((SALT + repr(key)).encode()).digest()
    return struct.unpack("<Q", d[:8])[0] / 2.0**64


def hsym(*key):
    """pseudo-random real in (-1,1), away from 0"""
    x = 2 * h01(*key) - 1
    return x + (0.1 if x >= 0 else -0.1)


_fv = {}


def fv(t):
    """free environment variables: frozenset over 'K','R','ix0'..,'bvN'"""
    r = _fv.get(t)
    if r is not None:
        return r
    # iterative post-order
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x in _fv:
            continue
        kids = _kids(x)
        if not done:
            st.append((x, True))
            for k in kids:
                if k not in _fv:
                    st.append((k, False))
            continue
        s = frozenset().union(*[_fv[k] for k in kids]) if kids else frozenset()
        if isinstance(x, T):
            if x.op == "K":
                s = s | {"K"}
            elif x.op == "Kn":
                s = s | {"Kn%d" % x.args[0]}
            elif x.op == "ix":
                s = s | {"ix%d" % x.args[0]}
            elif x.op == "bv":
                s = s | {"bv%d" % x.args[0]}
            elif x.op == "mat":
                s = s - {"ix0", "ix1", "ix2", "ix3"}
            elif x.op == "sum":
                s = s - {"bv%d" % x.args[3].args[0]}
            elif x.op in ("kidx", "nk", "ldom", "commrank", "partdom"):
                s = s | {"R"}
            elif x.op == "allreduce":
                if x.args[1].op == "comm" and x.args[1].args[0] == "commk":
                    s = s - {"R"}
            elif x.op in ("W",):
                s = s - {"K", "R"}
        _fv[x] = s
    return _fv[t]


def _kids(x):
    if isinstance(x, B):
        return bsupport(x)
    out = []
    for a in x.args:
        if isinstance(a, (T, B)):
            out.append(a)
        elif isinstance(a, tuple):
            out.extend(y for y in a if isinstance(y, (T, B)))
    return out


class World:
    REALARR = {"fn0", "wk", "ekin", "mu0", "C0r"}

    def __init__(self, seed=1, nk=3, ranks=((0, 1), (2,)), nb=(2, 3, 2), npw=(4, 5, 4), over=None, scal=None, atoms_over=None):
        self.seed = seed
        self.nk = nk
        self.ranks = ranks
        self.nb = nb
        self.npw = npw
        self.scal = {"T": 1.3e5, "tol": 1e-3, "kappa": 0.3 + 0.4 * h01(seed, "kappa"), "tau": 0.3, "occ": 2.0, "maxiter": 10, "restart": 3,
                     "nel": 5.0}
        self.scal.update(scal or {})
        self.over = over or {}          # term -> value / callable(env indices)
        self.aover = atoms_over or {}   # atom term -> bool
        self.etot_hook = None
        self.memo = {}
        self.cache = {}

    # ------------------------------------------------------------------
    def dim(self, what, k):
        return (self.nb if what == "nb" else self.npw)[k]

    def rnd(self, *key):
        return hsym(self.seed, *key)

    def crnd(self, *key):
        return complex(hsym(self.seed, "re", *key), hsym(self.seed, "im", *key))

    def herm(self, tag, k, n, shift=0.0):
        key = ("herm", tag, k, n, shift)
        r = self.cache.get(key)
        if r is None:
            m = np.zeros((n, n), complex)
            for i in range(n):
                for j in range(n):
                    m[i, j] = self.crnd(tag, k, i, j)
            m = (m + m.conj().T) / 2 + shift * np.eye(n)
            r = self.cache[key] = m
        return r

    # ------------------------------------------------------------------ evaluation
    def ev(self, t, env):
        """env: dict with 'R','K','ix*','bv*'"""
        if t.op == "num":
            f = t.args[0]
            return int(f) if f.denominator == 1 else float(f)
        s = fv(t)
        key = (t, tuple(sorted((n, env.get(n)) for n in s)))
        r = self.memo.get(key)
        if r is None:
            r = self._ev(t, env)
            self.memo[key] = r
        return r

    def b(self, g, env):
        while g.lo is not None:
            g = g.hi if self.at(atoms[g.v], env) else g.lo
        return g is TRUE

    def feasible(self, g, env, free, rng):
        """Evaluate a path condition; comparisons no random world can satisfy (free(atom)) are chosen so that
        the condition stays satisfiable and remembered, so that the values are evaluated on the same path."""
        g0 = g
        trail = []          # free atoms decided on this walk: (atom, node, other value still untried)
        budget = 400
        while True:
            while g.lo is not None:
                a = atoms[g.v]
                if a not in self.aover and free(a):
                    if g.hi is FALSE or g.lo is FALSE:
                        self.aover[a] = g.hi is not FALSE
                        trail.append((a, g, False))
                    else:
                        self.aover[a] = rng.random() < 0.5
                        trail.append((a, g, True))
                g = g.hi if self.at(a, env) else g.lo
            if g is TRUE:
                # decisions taken late must not change what was evaluated early
                self.memo.clear()
                return self.b(g0, env)
            budget -= 1
            while trail and (not trail[-1][2] or budget < 0):
                a, g, _ = trail.pop()
                del self.aover[a]
            if not trail:
                return False
            a, g, _ = trail.pop()
            self.aover[a] = not self.aover[a]
            self.memo.clear()
            trail.append((a, g, False))

    def at(self, a, env):
        if a in self.aover:
            return self.aover[a]
        if a.op in ("flt", "ilt"):
            return self.re(a.args[0], env) < self.re(a.args[1], env)
        if a.op == "fle":
            return self.re(a.args[0], env) <= self.re(a.args[1], env)
        if a.op in ("feq", "ieq"):
            x, y = a.args
            if x.op in ("comm", "str", "const") or y.op in ("comm", "str", "const"):
                return x is y
            return self.ev(x, env) == self.ev(y, env)
        v = self.ev(a, env)
        if a.op == "phi" and a not in self.over:
            return v > 0
        return bool(v)

    def re(self, t, env):
        v = self.ev(t, env)
        return v.real if isinstance(v, complex) else v

    def arr(self, a, env, *ix):
        """element of an array-valued term"""
        if a in self.over:
            o = self.over[a]
            return o(env.get("K"), *ix) if callable(o) else o
        op = a.op
        if op == "mat":
            e = dict(env)
            for i, x in enumerate(ix):
                e["ix%d" % i] = x
            return self.ev(a.args[0], e)
        key = (a, ix, tuple(sorted((n, env.get(n)) for n in fv(a))))
        r = self.memo.get(key)
        if r is None:
            r = self._arr(a, env, ix)
            self.memo[key] = r
        return r

    def _arr(self, a, env, ix):
        op = a.op
        if op == "at":
            k = self.key(a.args[1], env)
            return self.karr(a.args[0], k, ix, env)
        if op == "mm":
            ta, tb, kk, A, Bm = a.args
            n = int(self.re(kk, env))
            s = 0.0
            for l in range(n):
                x = self.opel(ta, A, env, ix[0], l)
                y = self.opel(tb, Bm, env, l, ix[1])
                s += x * y
            return s
        if op == "op":
            k = self.key(a.args[1], env)
            n = self.dim("npw", k)
            M = self.opmat(a.args[0], k, n)
            if ix[0] >= n:
                return self.crnd("oob", ix)
            return sum(M[ix[0], l] * self.arr(a.args[2], dict(env, K=env.get("K")), l, ix[1]) for l in range(n))
        if op in ("eigvec", "eigval"):
            w, U = self.eig(a, env)
            n = len(w)
            if any(i >= n for i in ix):
                return self.crnd("oob", ix)
            return float(w[ix[0]]) if op == "eigval" else complex(U[ix[0], ix[1]])
        if op == "solve":
            n = int(self.re(a.args[0], env))
            A = self.herm_tri(self.dense(a.args[2], env, n, n), a.args[1])
            b = np.array([self.arr(a.args[3], env, i, ix[1]) for i in range(n)], complex)
            return complex(np.linalg.solve(A, b)[ix[0]]) if ix[0] < n else self.crnd("oob", ix)
        if op == "badld":
            if self.ev(a.args[1], env) == self.ev(a.args[2], env):
                return self.arr(a.args[0], env, *ix)
            return self.crnd("badld", a.id, ix)
        if op == "ite":
            return self.arr(a.args[1] if self.b(a.args[0], env) else a.args[2], env, *ix)
        if op in ("sym", "phi", "phih"):
            return self.leafarr(a, None, ix)
        if op == "chol":
            uplo, n, M = a.args
            nn = int(self.re(n, env))
            if any(i >= nn for i in ix):
                return self.arr(M, env, *ix)
            L = self.cholesky(uplo, nn, M, env)
            up = isnum(uplo) and uplo.args[0] == 85
            if (ix[0] > ix[1]) if up else (ix[0] < ix[1]):
                return self.arr(M, env, *ix)        # other triangle is not referenced
            return complex(L[ix[1], ix[0]].conjugate()) if up else complex(L[ix[0], ix[1]])
        if op == "potrs":
            uplo, n, A, Bm = a.args
            nn = int(self.re(n, env))
            if ix[0] >= nn:
                return self.crnd("oob", ix)
            F = self.dense(A, env, nn, nn)
            b = np.array([self.arr(Bm, env, i, ix[1]) for i in range(nn)], complex)
            if isnum(uplo) and uplo.args[0] == 85:
                U = np.triu(F)
                x = np.linalg.solve(U, np.linalg.solve(U.conj().T, b))
            else:
                L = np.tril(F)
                x = np.linalg.solve(L.conj().T, np.linalg.solve(L, b))
            return complex(x[ix[0]])
        if op in ("lu", "getrs"):
            raise Undecided(op)
        raise Undecided("array " + op)

    def opel(self, t, A, env, i, j):
        if t == "N":
            return self.arr(A, env, i, j)
        if t == "T":
            return self.arr(A, env, j, i)
        if t == "H":
            v = self.arr(A, env, j, i)
            return v.conjugate() if isinstance(v, complex) else v
        return self.crnd("trans", t, i, j)

    def opmat(self, name, k, n):
        return self.herm("op" + name, k, n, 4.0 if name in ("S", "P") else 0.0)

    def dense(self, A, env, n, m):
        return np.array([[self.arr(A, env, i, j) for j in range(m)] for i in range(n)], complex)

    def herm_tri(self, A, uplo):
        if isnum(uplo) and uplo.args[0] == 85:      # 'U'
            U = np.triu(A, 1)
        elif isnum(uplo) and uplo.args[0] == 76:
            U = np.tril(A, -1)
        else:
            return A
        return U + U.conj().T + np.diag(np.diag(A).real)

    def eig(self, a, env):
        if a.op == "eigvec":
            n, uplo, jobz, lay, M = a.args
        else:
            n, uplo, lay, M = a.args
            jobz = None
        key = ("eig", n, uplo, lay, M, tuple(sorted((x, env.get(x)) for x in fv(M))))
        r = self.memo.get(key)
        if r is None:
            nn = int(self.re(n, env))
            A = self.dense(M, env, nn, nn)
            if not (isnum(lay) and lay.args[0] == 102):
                A = A.T
            r = self.canon_eigh(self.herm_tri(A, uplo))
            self.memo[key] = r
        if jobz is not None and not (isnum(jobz) and jobz.args[0] == 86):
            w, U = r
            return w, np.full_like(U, 0.123)
        return r

    def cholesky(self, uplo, nn, M, env):
        key = ("chol", uplo, nn, M, tuple(sorted((x, env.get(x)) for x in fv(M))))
        r = self.memo.get(key)
        if r is None:
            A = self.herm_tri(self.dense(M, env, nn, nn), uplo)
            try:
                r = np.linalg.cholesky(A)
            except np.linalg.LinAlgError:
                r = np.full((nn, nn), math.nan + 0j)
            self.memo[key] = r
        return r

    @staticmethod
    def canon_eigh(A):
        """eigh with canonical phases: deterministic up to rounding"""
        nn = len(A)
        if not np.all(np.isfinite(A)):
            return np.full(nn, math.nan), np.full((nn, nn), math.nan + 0j)
        w, U = np.linalg.eigh(A)
        U = U.copy()
        for j in range(nn):
            p = int(np.argmax(np.abs(U[:, j]) > 0.3 / math.sqrt(nn)))
            ph = U[p, j] / abs(U[p, j])
            U[:, j] = U[:, j] / ph * cmath.exp(1j * 0.7)
        return w, U

    def korder(self, n, r):
        """order in which collection n stores the labels of rank r"""
        return sorted(self.ranks[r], key=lambda k: (hsym(self.seed, "order", n, k), k))

    def key(self, t, env):
        if t.op == "K":
            k = env.get("K")
            if k is None:
                raise Undecided("K unbound")
            return k
        if t.op == "Kn":
            return env["Kn%d" % t.args[0]]
        if t.op == "kidx":
            i = int(self.re(t.args[1], env))
            loc = self.korder(t.args[0], env.get("R", 0))
            if not 0 <= i < len(loc):
                raise Undecided("kidx out of range")
            return loc[i]
        if t.op == "kperm":
            k = self.key(t.args[2], env)
            r = next(i for i, l in enumerate(self.ranks) if k in l)
            return self.korder(t.args[0], r)[self.korder(t.args[1], r).index(k)]
        if t.op == "bv":
            return env["bv%d" % t.args[0]]
        if t.op == "ite":
            return self.key(t.args[1] if self.b(t.args[0], env) else t.args[2], env)
        raise Undecided("key " + t.op)

    def wval(self, w):
        """smooth functional of a backend state token"""
        r = self.memo.get(("w", w))
        if r is None:
            if w.op == "W":
                r = 0.0
                for k in range(self.nk):
                    env = {"K": k, "R": next(i for i, l in enumerate(self.ranks) if k in l)}
                    for i in range(self.dim("npw", k)):
                        for j in range(self.dim("nb", k)):
                            c = complex(self.arr(w.args[1], env, i, j))
                            r += 0.3 * (self.rnd("wC", k, i, j) * c.real + self.rnd("wCi", k, i, j) * c.imag)
                    for j in range(self.dim("nb", k)):
                        f = self.arr(w.args[2], env, j)
                        r += 0.3 * self.rnd("wf", k, j) * (f.real if isinstance(f, complex) else f)
            elif w.op == "ite":
                r = self.wval(w.args[1] if self.b(w.args[0], {"R": 0}) else w.args[2])
            elif w in self.over:
                r = self.over[w]
            else:
                r = self.rnd("w", w.op, w.args)
            self.memo[("w", w)] = r
        return r

    def Wcfn(self, w):
        """C array term backing a token"""
        if w.op == "W":
            return w.args[1]
        if w.op == "ite":
            return self.Wcfn(w.args[1] if self.b(w.args[0], {"R": 0}) else w.args[2])
        return None

    def Hk(self, w, k):
        x = self.wval(w)
        n = self.dim("npw", k)
        return self.herm("H0", k, n) + math.cos(x) * self.herm("H1", k, n)

    def karr(self, a, k, ix, env):
        op = a.op
        if a in self.over:
            return self.over[a](k, *ix)
        if op == "ite":
            return self.karr(a.args[1] if self.b(a.args[0], env) else a.args[2], k, ix, env)
        if op == "bek":
            x = self.wval(a.args[0])
            return math.cos(x * (1 + 0.3 * self.rnd("ekf", k, ix[0])) + 3 * self.rnd("ek", k, ix[0]))
        if op in ("hphi", "sphi"):
            n = self.dim("npw", k)
            M = self.Hk(a.args[0], k) if op == "hphi" else self.opmat("S", k, n)
            C = self.Wcfn(a.args[0])
            s = 0
            if ix[0] >= n:
                return self.crnd("oob", ix)
            for l in range(n):
                c = self.arr(C, {"K": k, "R": env.get("R", 0)}, l, ix[1]) if C is not None else self.leafarr(mk("sym", "C0"), k, (l, ix[1]))
                s += M[ix[0], l] * c
            return s
        if op in ("sym", "phi", "phih"):
            return self.leafarr(a, k, ix)
        return self.arr(mk("at", a, mk("K")), dict(env, K=k), *ix) if False else self._karr2(a, k, ix)

    def _karr2(self, a, k, ix):
        raise Undecided("k-array " + a.op)

    def leafarr(self, a, k, ix):
        if a in self.over:
            return self.over[a](k, *ix) if callable(self.over[a]) else self.over[a]
        nm = a.args[0] if a.op == "sym" else repr(a.args)
        if a.op == "sym" and nm == "wk":
            return 0.2 + 0.3 * h01(self.seed, "wk", k)
        if (a.op == "sym" and nm in self.REALARR) or len(ix) == 1:
            return self.rnd("leaf", nm, k, ix)
        return self.crnd("leaf", nm, k, ix)

    # scalar operations
    def _ev(self, t, env):
        op = t.op
        a = t.args
        if t in self.over:
            o = self.over[t]
            return o(env) if callable(o) else o
        if op == "add":
            return self.ev(a[0], env) + self.ev(a[1], env)
        if op == "mul":
            return self.ev(a[0], env) * self.ev(a[1], env)
        if op == "neg":
            return -self.ev(a[0], env)
        if op == "div":
            y = self.ev(a[1], env)
            x = self.ev(a[0], env)
            if y == 0:
                return math.nan if x == 0 or x != x else math.inf
            return x / y
        if op == "ite":
            return self.ev(a[1] if self.b(a[0], env) else a[2], env)
        if op == "el":
            return self.arr(a[0], env, *[int(self.re(x, env)) for x in a[1:]])
        if op == "sum":
            kind, lo, hi, bv, body = a
            n = "bv%d" % bv.args[0]
            s = 0
            if kind == "k":
                for k in self.domain(lo, env):
                    s = s + self.ev(body, dict(env, **{n: k}))
            else:
                for i in range(int(self.re(lo, env)), int(self.re(hi, env))):
                    s = s + self.ev(body, dict(env, **{n: i}))
            return s
        if op == "allreduce":
            o, c, v = a
            if c.op == "ite":
                c = c.args[1] if self.b(c.args[0], env) else c.args[2]
            nm = c.args[0] if c.op == "comm" else None
            if nm != "commk":
                if nm in ("commg", "ompi_mpi_comm_self"):
                    return self.ev(v, env)
                return self.rnd("allreduce", c.id) + self.ev(v, env)
            vs = [self.ev(v, dict(env, R=r)) for r in range(len(self.ranks))]
            on = show(o)
            if "sum" in on:
                return sum(vs)
            if "max" in on:
                return max(vs)
            if "min" in on:
                return min(vs)
            raise Undecided("allreduce op " + on)
        if op == "sym":
            n = a[0]
            if n in self.scal:
                return self.scal[n]
            return self.rnd("sym", n)
        if op in ("phi", "phih"):
            return self.rnd("phi", repr(a))
        if op == "real":
            v = self.ev(a[0], env)
            return v.real if isinstance(v, complex) else v
        if op == "imag":
            v = self.ev(a[0], env)
            return v.imag if isinstance(v, complex) else 0.0
        if op == "conj":
            v = self.ev(a[0], env)
            return v.conjugate() if isinstance(v, complex) else v
        if op == "cpx":
            return complex(self.re(a[0], env), self.re(a[1], env))
        if op == "abs":
            return abs(self.ev(a[0], env))
        if op in ("exp", "sqrt", "erf", "erfc", "log", "cos", "sin", "tanh", "cosh", "sinh", "log1p", "expm1", "floor", "ceil"):
            v = self.ev(a[0], env)
            if isinstance(v, complex):
                if v.imag == 0:
                    v = v.real
                else:
                    return getattr(cmath, op)(v)
            try:
                return getattr(math, op)(v)
            except OverflowError:
                return math.inf
            except ValueError:
                return math.nan
        if op in ("pow", "max", "min", "fmax", "fmin"):
            x, y = self.re(a[0], env), self.re(a[1], env)
            if op == "pow":
                try:
                    return x ** y
                except (OverflowError, ZeroDivisionError):
                    return math.inf
            return (max if "max" in op else min)(x, y)
        if op == "imod":
            x, y = int(self.re(a[0], env)), int(self.re(a[1], env))
            return int(math.fmod(x, y)) if y else math.nan
        if op == "idiv":
            x, y = int(self.re(a[0], env)), int(self.re(a[1], env))
            return int(x / y) if y else math.nan
        if op in ("nb", "npw"):
            return self.dim(op, self.key(a[0], env))
        if op in ("ldC", "ldH", "ldS"):
            return self.dim("npw", self.key(a[0], env)) + {"ldC": 1, "ldH": 2, "ldS": 3}[op]
        if op == "nk":
            return len(self.ranks[env.get("R", 0)])
        if op == "bv":
            return env["bv%d" % a[0]]
        if op == "ix":
            return env["ix%d" % a[0]]
        if op == "K":
            return env["K"]
        if op in ("kf", "ks"):
            k = self.key(a[0], env)
            return (k // 2 if op == "kf" else k % 2)
        if op == "commrank":
            return env.get("R", 0) if a[0].args[0] in ("commk", "ompi_mpi_comm_world") else 0
        if op == "commsize":
            return len(self.ranks) if a[0].args[0] in ("commk", "ompi_mpi_comm_world") else 1
        if op == "etot":
            if self.etot_hook is not None:
                r = self.etot_hook(self, a[0])
                if r is not None:
                    return r
            return math.cos(1.3 * self.wval(a[0])) * 2
        if op == "status":
            return 0
        if op == "undef":
            raise Undef(str(a[0]))
        if op == "env":
            return 0
        if op == "strcmp":
            return 1
        if op == "W":
            return self.wval(t)
        if op == "count":
            return len(self.domain(a[0], env))
        raise Undecided("op " + op)

    def domain(self, d, env):
        if d.op == "gdom":
            return range(self.nk)
        if d.op == "ldom":
            return self.ranks[env.get("R", 0)]
        if d.op == "emptydom":
            return ()
        raise Undecided("domain " + d.op)


def close(x, y, tol=1e-7):
    x, y = complex(x), complex(y)
    if cmath.isnan(x) or cmath.isnan(y):
        return cmath.isnan(x) and cmath.isnan(y)
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))
