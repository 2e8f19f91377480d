"""Reference semantics (numpy) against which the extracted value graph is compared.

Only mathematics lives here: the free-energy functional of ensemble DFT, its gradient, the preconditioned
descent / conjugate directions and the geodesic step.  Nothing refers to the structure of the source."""
import math
import numpy as np

KB = 3.16681156340226e-06
SQ2, SQPI = math.sqrt(2.0), math.sqrt(math.pi)


def _exp(x):
    return math.exp(max(-700.0, min(700.0, x)))


class Smear:
    """occupation f(x), delta = f', entropy S with S' = -x delta, S(+-inf) = 0; per unit max. occupancy"""

    def __init__(self, name):
        self.f, self.d, self.s = getattr(self, name)()

    def FERMI_DIRAC(self):
        def f(x):
            return 1 / (1 + _exp(-x))

        def d(x):
            return f(x) * f(-x)

        def s(x):
            x = abs(x)
            return math.log1p(_exp(-x)) + x * _exp(-x) / (1 + _exp(-x))
        return f, d, s

    def GAUSSIAN_SPLINE(self):
        def f(x):
            return 0.5 * _exp(x * (SQ2 - x)) if x <= 0 else 1 - 0.5 * _exp(-x * (SQ2 + x))

        def d(x):
            x = abs(x)
            return 0.5 * _exp(-x * (SQ2 + x)) * (SQ2 + 2 * x)

        def s(x):
            x = abs(x)
            return 0.25 * (2 * _exp(-x * (SQ2 + x)) * x + math.exp(0.5) * SQPI * math.erfc(1 / SQ2 + x))
        return f, d, s

    def GAUSS(self):
        return (lambda x: 0.5 * (1 + math.erf(x)), lambda x: _exp(-x * x) / SQPI, lambda x: 0.5 * _exp(-x * x) / SQPI)

    def METHFESSEL_PAXTON(self):
        return (lambda x: 0.5 * (1 + math.erf(x) + x * _exp(-x * x) / SQPI),
                lambda x: _exp(-x * x) * (1.5 - x * x) / SQPI,
                lambda x: _exp(-x * x) * (1 - 2 * x * x) / 4 / SQPI)

    def COLD(self):
        def z(x):
            return x - 1 / SQ2
        return (lambda x: _exp(-z(x) ** 2) / SQ2 / SQPI + 0.5 * math.erfc(-z(x)),
                lambda x: _exp(-z(x) ** 2) * (2 - SQ2 * x) / SQPI,
                lambda x: _exp(-z(x) ** 2) * (1 - SQ2 * x) / 2 / SQPI)


class Ref:
    def __init__(self, world, smear):
        self.w = world
        self.sm = Smear(smear)
        self.kT = KB * world.scal["T"]
        self.kappa = world.scal["kappa"]
        self.mo = world.scal["occ"]
        self.wk = [0.2 + 0.3 * world_h(world, k) for k in range(world.nk)]

    def S(self, k):
        return self.w.opmat("S", k, self.w.npw[k])

    def P(self, k):
        return self.w.opmat("P", k, self.w.npw[k])

    def fn(self, ek, mu):
        return [np.array([self.mo * self.sm.f((mu - e) / self.kT) for e in x]) for x in ek]

    def delta(self, ek, mu):
        return [np.array([self.mo * self.sm.d((mu - e) / self.kT) for e in x]) for x in ek]

    def kTS(self, ek, mu):
        """entropy contribution to the free energy (-T S)"""
        return -self.kT * sum(w * sum(self.mo * self.sm.s((mu - e) / self.kT) for e in x) for w, x in zip(self.wk, ek))

    def gradients(self, st):
        """st: C, H, ek, fn, mu, bek (lists over k)"""
        ek, mu = st["ek"], st["mu"]
        dl = self.delta(ek, mu)
        dF = sum(w * sum((h - e) * d for h, e, d in zip(hh, ee, dd)) for w, hh, ee, dd in zip(self.wk, st["bek"], ek, dl))
        sf = sum(w * sum(dd) for w, dd in zip(self.wk, dl))
        gx, ge, dx, de, fr, lag = [], [], [], [], 0.0, []
        for k, w in enumerate(self.wk):
            C, H, e, f = st["C"][k], st["H"][k], ek[k], st["fn"][k]
            S, P = self.S(k), self.P(k)
            sx = S @ C
            L = np.linalg.solve(sx.conj().T @ P @ sx, sx.conj().T @ P @ H)
            xll = sx @ L
            g = w * H * f[None, :] - w * xll
            d = P @ (-H + xll)
            hij = w * C.conj().T @ H
            n = len(e)
            G = np.zeros((n, n), complex)
            for i in range(n):
                G[i, i] = -1 / self.kT * (hij[i, i] - w * e[i]) * dl[k][i]
                if abs(sf) >= 1e-12:
                    G[i, i] += w * dl[k][i] / sf * dF / self.kT
                for j in range(n):
                    if i != j and abs(e[i] - e[j]) >= 1e-10:
                        G[i, j] = (f[j] - f[i]) / (e[j] - e[i]) * hij[i, j]
            D = self.kappa * (hij / w - np.diag(e))
            fr += 2 * np.sum(g.conj() * d).real + np.sum(G.conj() * D).real
            gx.append(g)
            ge.append(G)
            dx.append(d)
            de.append(D)
            lag.append(sx)
        return {"gx": gx, "ge": ge, "dx": dx, "de": de, "fr": fr, "sx": lag}

    def conj(self, g, zx, ze, U):
        """transported previous directions and their slope"""
        rx, re, sl = [], [], 0.0
        for k in range(len(self.wk)):
            z = zx[k] @ U[k]
            sx = g["sx"][k]
            z = z - sx @ np.linalg.solve(sx.conj().T @ sx, sx.conj().T @ z)
            e = U[k].conj().T @ ze[k] @ U[k]
            sl += 2 * np.sum(z.conj() * g["gx"][k]).real + np.sum(e.conj() * g["ge"][k]).real
            rx.append(z)
            re.append(e)
        return rx, re, sl

    def geodesic(self, C, eta, zx, ze, t, eig):
        """(ek, U, C') ; eig(M) returns (w, U) with the phase convention of the world"""
        ek, U, X = [], [], []
        for k in range(len(self.wk)):
            w, u = eig(eta[k] + t * ze[k])
            x = C[k] + t * zx[k]
            o = x.conj().T @ self.S(k) @ x
            lam, V = np.linalg.eigh((o + o.conj().T) / 2)
            X.append(x @ V @ np.diag(1 / np.sqrt(lam)) @ V.conj().T @ u)
            ek.append(w)
            U.append(u)
        return ek, U, X


def world_h(world, k):
    from ri import h01
    return h01(world.seed, "wk", k)
