"""Catalogue of proximal operators: specs, builders and independent references.

A spec is a JSON dict {"op": name, ...}.  For each operator the catalogue knows how to draw a
spec, build the operator, evaluate the documented functional (or membership), and, where a
closed form or an exact algorithm independent of the library exists, its prox.
"""
import math

import numpy as np
import pylops
import pyproximal as pp
from hypothesis import strategies as st

from . import gen
from .gen import arr

REG = {}


def reg(cls):
    o = cls()
    o.name = cls.__name__
    REG[o.name] = o
    return cls


def get(p):
    return REG[p["op"]]


def build(p):
    return get(p).build(p)


class Base:
    convex = True      # convex function / set
    ind = False        # indicator of a set
    cplx = True        # complex vectors supported (value and prox)
    grad = False       # declares a gradient
    separable = False  # elementwise prox
    invariant = ""     # letters: p permutation, s sign flips / phases, h positively homogeneous (norm)
    minn = 1

    def params(self, draw, n):
        return {}

    def spec(self, draw, n, cplx=False):
        p = {"op": self.name, "n": n, "cplx": bool(cplx and self.cplx)}
        p.update(self.params(draw, n, p["cplx"]))
        return p

    def shape(self, p):
        return (p["n"],)

    def special(self, p, tau):
        return ()

    def acc(self, p, x):
        """absolute accuracy of prox beyond rounding"""
        return 0.0

    def x(self, draw, p, tau=1.0, **kw):
        """draw a point for this spec (JSON)"""
        n = int(np.prod(self.shape(p)))
        return gen.vec(draw, n, p["cplx"], special=self.special(p, tau), **kw)

    def arr(self, p, v):
        return arr(v, self.shape(p))


def fsum(a):
    return math.fsum(np.asarray(a, dtype=float).ravel().tolist())


def shrink(x, t):
    """complex/real soft threshold by scaling each entry"""
    a = np.abs(x)
    f = np.array([0.0 if ai <= ti else (ai - ti) / ai
                  for ai, ti in zip(a.ravel(), np.broadcast_to(t, a.shape).ravel())]).reshape(a.shape)
    return f * x


# ---------------------------------------------------------------- convex functions
@reg
class L1(Base):
    separable = True
    invariant = "psh"

    def params(self, draw, n, cplx):
        p = {"sigma": gen.pos(draw)}
        if draw(st.integers(0, 2)) == 0:
            p["g"] = gen.vec(draw, n, cplx, scale=False)
            if draw(st.integers(0, 3)) == 0:       # a shift of a few entries only
                keep = [i == n - 1 or draw(st.integers(0, 3)) == 0 for i in range(n)]
                part = lambda v: [a if k else 0.0 for a, k in zip(v, keep)]
                p["g"] = {k: part(v) for k, v in p["g"].items()} if gen.isc(p["g"]) else part(p["g"])
        return p

    def build(self, p):
        return pp.L1(sigma=p["sigma"], g=arr(p["g"]) if "g" in p else None)

    def val(self, p, x):
        g = arr(p["g"]) if "g" in p else 0.0
        return p["sigma"] * fsum(np.abs(x - g))

    def prox(self, p, x, tau):
        g = arr(p["g"]) if "g" in p else np.zeros(p["n"])
        return shrink(x - g, tau * p["sigma"]) + g

    def special(self, p, tau):
        if "g" in p:
            g = np.abs(arr(p["g"]))
            return (float(g[0]), float(g[-1]) + tau * p["sigma"])
        return (tau * p["sigma"], p["sigma"])

    def dual_viol(self, p, u):
        return max(0.0, float(np.max(np.abs(u))) - p["sigma"])

    def conj(self, p, u):
        g = arr(p["g"]) if "g" in p else np.zeros(p["n"])
        return float(np.real(np.vdot(g, u)))


@reg
class L1W(Base):
    """L1 on 2-dimensional arrays with one weight per column"""
    separable = True
    invariant = "s"

    def params(self, draw, n, cplx):
        c = draw(st.integers(1, 3))
        return {"cols": c, "sigma": [gen.pos(draw) for _ in range(c)]}

    def shape(self, p):
        return (p["n"], p["cols"])

    def build(self, p):
        return pp.L1(sigma=arr(p["sigma"]))

    def val(self, p, x):
        return fsum(np.array(p["sigma"])[None, :] * np.abs(x))

    def prox(self, p, x, tau):
        return shrink(x, tau * np.array(p["sigma"])[None, :])

    def special(self, p, tau):
        return tuple(tau * s for s in p["sigma"])

    def dual_viol(self, p, u):
        return max(0.0, float(np.max(np.abs(u) - np.array(p["sigma"])[None, :])))

    def conj(self, p, u):
        return 0.0


@reg
class L2(Base):
    grad = True
    separable = True

    def params(self, draw, n, cplx):
        p = {"sigma": gen.pos(draw)}
        k = draw(st.integers(0, 3))
        if k >= 1:
            p["b"] = gen.vec(draw, n, cplx, scale=False)
        if k >= 2:
            p["q"] = gen.vec(draw, n, cplx, scale=False)
            p["alpha"] = gen.pos(draw)
            if k == 3 and draw(st.booleans()):
                del p["b"]
        return p

    def build(self, p):
        return pp.L2(b=arr(p["b"]) if "b" in p else None, q=arr(p["q"]) if "q" in p else None,
                     sigma=p["sigma"], alpha=p.get("alpha", 1.0))

    def val(self, p, x):
        b = arr(p["b"]) if "b" in p else 0.0
        v = p["sigma"] / 2 * fsum(np.abs(x - b) ** 2)
        if "q" in p:
            v += p["alpha"] * fsum(np.real(np.conj(arr(p["q"])) * x))
        return v

    def prox(self, p, x, tau):
        b = arr(p["b"]) if "b" in p else np.zeros(p["n"])
        rhs = x / tau + p["sigma"] * b
        if "q" in p:
            rhs = rhs - p["alpha"] * arr(p["q"])
        return rhs / (1 / tau + p["sigma"])

    def gradient(self, p, x):
        b = arr(p["b"]) if "b" in p else 0.0
        g = p["sigma"] * (x - b)
        if "q" in p:
            g = g + p["alpha"] * arr(p["q"])
        return g


@reg
class L2Op(Base):
    grad = True

    def params(self, draw, n, cplx):
        m = draw(st.integers(1, 5))
        p = {"sigma": gen.pos(draw), "m": m, "A": gen.mat(draw, m, n, cplx), "b": gen.vec(draw, m, cplx, scale=False),
             "solver": draw(st.sampled_from([None, "numpy", "scipy", "factorize"]))}
        if draw(st.integers(0, 2)) == 0:
            p["q"] = gen.vec(draw, n, cplx, scale=False)
            p["alpha"] = gen.pos(draw)
        return p

    def A(self, p):
        return arr(p["A"], (p["m"], p["n"]))

    def build(self, p):
        A = self.A(p)
        return pp.L2(Op=pylops.MatrixMult(A, dtype=A.dtype), b=arr(p["b"]), q=arr(p["q"]) if "q" in p else None,
                     sigma=p["sigma"], alpha=p.get("alpha", 1.0), densesolver=p["solver"])

    def val(self, p, x):
        v = p["sigma"] / 2 * fsum(np.abs(self.A(p) @ x - arr(p["b"])) ** 2)
        if "q" in p:
            v += p["alpha"] * fsum(np.real(np.conj(arr(p["q"])) * x))
        return v

    def prox(self, p, x, tau):
        # least squares on the augmented system
        A = self.A(p)
        n = p["n"]
        y = x - (tau * p["alpha"] * arr(p["q"]) if "q" in p else 0.0)
        r = math.sqrt(tau * p["sigma"])
        G = np.vstack([r * A, np.eye(n)])
        return np.linalg.lstsq(G, np.concatenate([r * arr(p["b"]), y]), rcond=None)[0]

    def gradient(self, p, x):
        A = self.A(p)
        g = p["sigma"] * (A.conj().T @ (A @ x - arr(p["b"])))
        if "q" in p:
            g = g + p["alpha"] * arr(p["q"])
        return g


@reg
class L21(Base):
    invariant = "sh"

    def params(self, draw, n, cplx):
        return {"nd": draw(st.integers(1, 4)), "sigma": gen.pos(draw)}

    def shape(self, p):
        return (p["n"] * p["nd"],)

    def build(self, p):
        return pp.L21(ndim=p["nd"], sigma=p["sigma"])

    def cols(self, p, x):
        n = p["n"]
        return [np.array([x[i * n + j] for i in range(p["nd"])]) for j in range(n)]

    def uncols(self, p, c):
        return np.array(c).T.ravel()

    def val(self, p, x):
        return p["sigma"] * fsum([math.sqrt(fsum(np.abs(c) ** 2)) for c in self.cols(p, x)])

    def prox(self, p, x, tau):
        o = []
        for c in self.cols(p, x):
            r = math.sqrt(fsum(np.abs(c) ** 2))
            t = tau * p["sigma"]
            o.append(np.zeros_like(c) if r <= t else c * ((r - t) / r))
        return self.uncols(p, o)

    def special(self, p, tau):
        return (tau * p["sigma"], p["sigma"])

    def dual_viol(self, p, u):
        return max(0.0, max(float(np.linalg.norm(c)) for c in self.cols(p, u)) - p["sigma"])

    def conj(self, p, u):
        return 0.0


@reg
class L21_plus_L1(Base):
    invariant = "sh"

    def params(self, draw, n, cplx):
        return {"nd": draw(st.integers(1, 4)), "sigma": gen.pos(draw),
                "rho": draw(st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0]))}

    def shape(self, p):
        return (p["nd"], p["n"])

    def build(self, p):
        return pp.L21_plus_L1(sigma=p["sigma"], rho=p["rho"])

    def val(self, p, x):
        l21 = fsum([math.sqrt(fsum(np.abs(x[:, j]) ** 2)) for j in range(x.shape[1])])
        return p["sigma"] * (p["rho"] * fsum(np.abs(x)) + (1 - p["rho"]) * l21)

    def prox(self, p, x, tau):
        y = shrink(x, tau * p["sigma"] * p["rho"])
        t = tau * p["sigma"] * (1 - p["rho"])
        for j in range(y.shape[1]):
            r = math.sqrt(fsum(np.abs(y[:, j]) ** 2))
            y[:, j] *= 0.0 if r <= t else (r - t) / r
        return y

    def special(self, p, tau):
        return (tau * p["sigma"] * p["rho"], tau * p["sigma"] * (1 - p["rho"]), tau * p["sigma"])

    def dual_viol(self, p, u):
        v = shrink(u, p["sigma"] * p["rho"])
        return max(0.0, float(np.max(np.linalg.norm(v, axis=0))) - p["sigma"] * (1 - p["rho"]))

    def conj(self, p, u):
        return 0.0


@reg
class Huber(Base):
    separable = True
    invariant = "ps"

    def params(self, draw, n, cplx):
        return {"alpha": gen.pos(draw)}

    def build(self, p):
        return pp.Huber(alpha=p["alpha"])

    def val(self, p, x):
        a = p["alpha"]
        return fsum([r * r / (2 * a) if r <= a else r - a / 2 for r in np.abs(x).ravel().tolist()])

    def prox(self, p, x, tau):
        a = p["alpha"]
        o = np.zeros_like(x)
        for i, v in enumerate(x):
            y = v / (1 + tau / a)     # quadratic branch
            o[i] = y if abs(y) <= a else v * (1 - tau / abs(v))
        return o

    def special(self, p, tau):
        return (p["alpha"], p["alpha"] + tau, tau)

    def dual_viol(self, p, u):
        return max(0.0, float(np.max(np.abs(u))) - 1.0)

    def conj(self, p, u):
        return p["alpha"] / 2 * fsum(np.abs(u) ** 2)


@reg
class HuberCircular(Base):
    invariant = "psr"

    def params(self, draw, n, cplx):
        return {"alpha": gen.pos(draw)}

    def build(self, p):
        return pp.HuberCircular(alpha=p["alpha"])

    def val(self, p, x):
        a = p["alpha"]
        r = math.sqrt(fsum(np.abs(x) ** 2))
        return r * r / (2 * a) if r <= a else r - a / 2

    def prox(self, p, x, tau):
        a = p["alpha"]
        y = x / (1 + tau / a)
        if math.sqrt(fsum(np.abs(y) ** 2)) <= a:
            return y
        r = math.sqrt(fsum(np.abs(x) ** 2))
        return x * (1 - tau / r)

    def special(self, p, tau):
        return (p["alpha"], p["alpha"] + tau, tau)

    def dual_viol(self, p, u):
        return max(0.0, float(np.linalg.norm(u)) - 1.0)

    def conj(self, p, u):
        return p["alpha"] / 2 * fsum(np.abs(u) ** 2)


@reg
class Euclidean(Base):
    grad = True   # away from zero
    invariant = "psrh"

    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw)}

    def build(self, p):
        return pp.Euclidean(sigma=p["sigma"])

    def val(self, p, x):
        return p["sigma"] * math.sqrt(fsum(np.abs(x) ** 2))

    def prox(self, p, x, tau):
        r = math.sqrt(fsum(np.abs(x) ** 2))
        t = tau * p["sigma"]
        return np.zeros_like(x) if r <= t else x * ((r - t) / r)

    def special(self, p, tau):
        return (tau * p["sigma"], p["sigma"])

    def dual_viol(self, p, u):
        return max(0.0, float(np.linalg.norm(u)) - p["sigma"])

    def conj(self, p, u):
        return 0.0

    def gradient(self, p, x):
        return p["sigma"] * x / math.sqrt(fsum(np.abs(x) ** 2))


@reg
class Quadratic(Base):
    grad = True
    cplx = False

    def params(self, draw, n, cplx):
        k = draw(st.integers(0, 3))
        p = {"c": gen.num(draw)}
        if k >= 1:
            p["b"] = gen.rvec(draw, n, scale=False)
        if k >= 2:
            r = draw(st.integers(1, n))
            p["R"] = gen.mat(draw, r, n)
            p["r"] = r
            if k == 3 and draw(st.booleans()):
                del p["b"]
        return p

    def A(self, p):
        R = arr(p["R"], (p["r"], p["n"]))
        return R.T @ R

    def build(self, p):
        Op = pylops.MatrixMult(arr(self.A(p))) if "R" in p else None
        return pp.Quadratic(Op=Op, b=arr(p["b"]) if "b" in p else None, c=p["c"])

    def val(self, p, x):
        v = p["c"]
        if "R" in p:
            v += 0.5 * fsum((arr(p["R"], (p["r"], p["n"])) @ x) ** 2)
        if "b" in p:
            v += fsum(arr(p["b"]) * x)
        return v

    def prox(self, p, x, tau):
        y = x - tau * arr(p["b"]) if "b" in p else x.copy()
        if "R" not in p:
            return y
        R = arr(p["R"], (p["r"], p["n"]))
        G = np.vstack([math.sqrt(tau) * R, np.eye(p["n"])])
        return np.linalg.lstsq(G, np.concatenate([np.zeros(p["r"]), y]), rcond=None)[0]

    def gradient(self, p, x):
        g = self.A(p) @ x if "R" in p else np.zeros_like(x)
        return g + arr(p["b"]) if "b" in p else g


def proj_simplex(v, r):
    """exact projection on {x>=0, sum x = r} by sorting"""
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - r
    k = np.arange(1, v.size + 1)
    rho = np.nonzero(u - c / k > 0)[0][-1]
    return np.maximum(v - c[rho] / (rho + 1), 0)


def proj_l1(x, r):
    a = np.abs(x)
    if fsum(a) <= r:
        return x.copy()
    w = proj_simplex(a, r)
    return np.array([0 * xi if ai == 0 else xi * (wi / ai) for xi, ai, wi in zip(x, a, w)], dtype=x.dtype)


@reg
class Nuclear(Base):
    invariant = "h"

    def params(self, draw, n, cplx):
        m = draw(st.integers(1, 4))
        k = min(m, n)
        p = {"m": m}
        if draw(st.integers(0, 2)) == 0:
            # non-descending weights: soft thresholding is the exact (possibly non-convex) prox
            s = sorted(gen.pos(draw) for _ in range(k))
            if draw(st.booleans()):
                s = s + [99.0, 100.0]   # longer than the number of singular values
            p["sigma"] = s
        else:
            p["sigma"] = gen.pos(draw)
        return p

    def shape(self, p):
        return (p["m"] * p["n"],)

    def is_convex(self, p):
        if not isinstance(p["sigma"], list):
            return True
        k = min(p["m"], p["n"])
        return len(set(p["sigma"][:k])) == 1

    def build(self, p):
        s = p["sigma"]
        return pp.Nuclear((p["m"], p["n"]), arr(s) if isinstance(s, list) else s)

    def s(self, p):
        k = min(p["m"], p["n"])
        return np.array(p["sigma"][:k]) if isinstance(p["sigma"], list) else p["sigma"] * np.ones(k)

    def val(self, p, x):
        S = svals(x.reshape(p["m"], p["n"]))
        return fsum(self.s(p) * S)

    def prox(self, p, x, tau):
        X = x.reshape(p["m"], p["n"])
        U, S, V = np.linalg.svd(X, full_matrices=False)
        return ((U * np.maximum(S - tau * self.s(p), 0)) @ V).ravel()

    def special(self, p, tau):
        return tuple(tau * s for s in self.s(p))

    def acc(self, p, x):
        return 0.0

    def dual_viol(self, p, u):
        if isinstance(p["sigma"], list):
            return 0.0
        return max(0.0, float(svals(u.reshape(p["m"], p["n"]))[0]) - p["sigma"])

    def conj(self, p, u):
        return 0.0


def svals(X):
    """singular values from a different LAPACK driver than numpy's gesdd"""
    import scipy.linalg
    return scipy.linalg.svd(X, compute_uv=False, lapack_driver="gesvd")


# ---------------------------------------------------------------- indicators of convex sets
class Ind(Base):
    ind = True

    def val(self, p, x):
        raise NotImplementedError


@reg
class Box(Ind):
    cplx = False
    separable = True

    def params(self, draw, n, cplx):
        style = draw(st.sampled_from(gen.STYLES[:4]))
        k = draw(st.integers(0, 4))
        if k <= 1:
            a, b = sorted([gen.num(draw, style=style), gen.num(draw, style=style)])
            return {"lo": a, "hi": b}
        if k == 2:
            return {"lo": gen.num(draw, style=style)}
        if k == 3:
            return {"hi": gen.num(draw, style=style)}
        a, b = gen.rvec(draw, n, style, scale=False), gen.rvec(draw, n, style, scale=False)
        return {"lo": np.minimum(a, b).tolist(), "hi": np.maximum(a, b).tolist()}

    def lohi(self, p):
        lo, hi = p.get("lo", -np.inf), p.get("hi", np.inf)
        return (arr(lo) if isinstance(lo, list) else lo, arr(hi) if isinstance(hi, list) else hi)

    def build(self, p):
        kw = {}
        lo, hi = self.lohi(p)
        if "lo" in p:
            kw["lower"] = lo
        if "hi" in p:
            kw["upper"] = hi
        return pp.Box(**kw)

    def viol(self, p, x):
        lo, hi = self.lohi(p)
        return float(np.max(np.maximum(np.maximum(lo - x, x - hi), 0)))

    def prox(self, p, x, tau):
        lo, hi = (np.broadcast_to(v, x.shape) for v in self.lohi(p))
        return np.array([l if v < l else (h if v > h else v) for v, l, h in zip(x, lo, hi)])

    def special(self, p, tau):
        lo, hi = self.lohi(p)
        return [abs(float(v)) for v in (np.min(lo), np.max(hi)) if np.isfinite(v)]

    def conj(self, p, u):
        lo, hi = self.lohi(p)
        with np.errstate(invalid="ignore"):
            a = np.where(u == 0, 0.0, np.maximum(np.where(u == 0, 0, lo * u), np.where(u == 0, 0, hi * u)))
        return float(np.sum(a))


@reg
class EuclideanBall(Ind):
    def params(self, draw, n, cplx):
        p = {"radius": gen.pos(draw)}
        p["center"] = gen.num(draw) if draw(st.booleans()) else gen.vec(draw, n, cplx, scale=False)
        return p

    def c(self, p):
        return p["center"] if isinstance(p["center"], (int, float)) else arr(p["center"])

    def build(self, p):
        return pp.EuclideanBall(self.c(p), p["radius"])

    def viol(self, p, x):
        return max(0.0, math.sqrt(fsum(np.abs(x - self.c(p)) ** 2)) - p["radius"])

    def prox(self, p, x, tau):
        d = x - self.c(p)
        r = math.sqrt(fsum(np.abs(d) ** 2))
        return x.copy() if r <= p["radius"] else self.c(p) + d * (p["radius"] / r)

    def special(self, p, tau):
        return (p["radius"],)


@reg
class L1Ball(Ind):
    invariant = "ps"

    def params(self, draw, n, cplx):
        return {"radius": gen.pos(draw), "xtol": draw(st.sampled_from([1e-5, 1e-8, 1e-10]))}

    def build(self, p):
        return pp.L1Ball(p["n"], p["radius"], xtol=p["xtol"])

    def viol(self, p, x):
        return max(0.0, fsum(np.abs(x)) - p["radius"])

    def prox(self, p, x, tau):
        return proj_l1(x, p["radius"])

    def special(self, p, tau):
        return (p["radius"], p["radius"] / p["n"])

    def acc(self, p, x):
        return 1.01 * p["xtol"] + 1e-13 * float(np.max(np.abs(x)))


@reg
class SimplexSet(Ind):
    cplx = False
    invariant = "p"

    def params(self, draw, n, cplx):
        return {"radius": gen.pos(draw), "xtol": draw(st.sampled_from([1e-5, 1e-8, 1e-10]))}

    def build(self, p):
        return pp.Simplex(p["n"], p["radius"], xtol=p["xtol"])

    def viol(self, p, x):
        return max(float(np.max(-x)), abs(fsum(x) - p["radius"]))

    def prox(self, p, x, tau):
        return proj_simplex(x, p["radius"])

    def special(self, p, tau):
        return (p["radius"], p["radius"] / p["n"])

    def acc(self, p, x):
        return 1.01 * p["xtol"] + 1e-13 * float(np.max(np.abs(x)))


@reg
class HalfSpace(Ind):
    cplx = False

    def params(self, draw, n, cplx):
        w = gen.rvec(draw, n, scale=False)
        if not any(w):
            w[0] = 1.0
        return {"w": w, "b": gen.num(draw)}

    def build(self, p):
        return pp.HalfSpace(arr(p["w"]), p["b"])

    def viol(self, p, x):
        w = np.array(p["w"])
        return max(0.0, (fsum(w * x) - p["b"]) / float(np.linalg.norm(w)))

    def prox(self, p, x, tau):
        w = np.array(p["w"])
        e = fsum(w * x) - p["b"]
        return x.copy() if e <= 0 else x - e * w / fsum(w * w)

    def special(self, p, tau):
        return (abs(p["b"]),)


@reg
class AffineSet(Ind):
    """rows orthogonalised from a drawn seed so that Op Op^H is well conditioned"""
    minn = 1

    def params(self, draw, n, cplx):
        m = draw(st.integers(1, n))
        return {"m": m, "seed": draw(gen.seeds()), "scale": draw(st.sampled_from([0.5, 1.0, 3.0])),
                "b": gen.vec(draw, m, cplx, scale=False)}

    def A(self, p):
        g = gen.rng(p["seed"])
        M = g.standard_normal((p["n"], p["n"]))
        if p.get("cplx"):
            M = M + 1j * g.standard_normal(M.shape)
        Q = np.linalg.qr(M)[0][: p["m"]]
        D = p["scale"] * g.uniform(1.0, 2.0, p["m"])
        return D[:, None] * Q

    def build(self, p):
        A = self.A(p)
        if np.iscomplexobj(A):
            A = arr({"re": A.real.tolist(), "im": A.imag.tolist()})
        else:
            A = arr(A)
        return pp.AffineSet(pylops.MatrixMult(A, dtype=A.dtype), arr(p["b"]), niter=50 * p["m"] + 50)

    def viol(self, p, x):
        A = self.A(p)
        r = np.linalg.solve(A @ A.conj().T, A @ x - gen.arr(p["b"]))
        return float(np.linalg.norm(A.conj().T @ r))

    def prox(self, p, x, tau):
        A = self.A(p)
        return x + np.linalg.lstsq(A, gen.arr(p["b"]) - A @ x, rcond=None)[0]

    def acc(self, p, x):
        A = self.A(p)
        r = np.linalg.norm(A @ x - gen.arr(p["b"]))
        return 1e-4 * float(r) / float(np.linalg.norm(A, -2))


@reg
class NuclearBall(Ind):
    def params(self, draw, n, cplx):
        return {"m": draw(st.integers(1, 4)), "radius": gen.pos(draw), "xtol": draw(st.sampled_from([1e-5, 1e-8, 1e-10]))}

    def shape(self, p):
        return (p["m"] * p["n"],)

    def build(self, p):
        return pp.NuclearBall((p["m"], p["n"]), p["radius"], xtol=p["xtol"])

    def viol(self, p, x):
        return max(0.0, fsum(svals(x.reshape(p["m"], p["n"]))) - p["radius"])

    def prox(self, p, x, tau):
        U, S, V = np.linalg.svd(x.reshape(p["m"], p["n"]), full_matrices=False)
        return ((U * proj_l1(S, p["radius"])) @ V).ravel()

    def special(self, p, tau):
        return (p["radius"],)

    def acc(self, p, x):
        return 2.1 * p["xtol"] * math.sqrt(min(p["m"], p["n"])) + 1e-12 * float(np.max(np.abs(x)))


@reg
class Hankel(Ind):
    def params(self, draw, n, cplx):
        if draw(st.integers(0, 19)) == 0:       # more antidiagonals than fit in a byte
            return {"m": draw(st.sampled_from([70, 129, 200, 300]))}
        return {"m": draw(st.integers(1, 4))}

    def shape(self, p):
        return (p["m"] * p["n"],)

    def build(self, p):
        return pp.Hankel((p["m"], p["n"]))

    def prox(self, p, x, tau):
        m, n = p["m"], p["n"]
        X = x.reshape(m, n)
        Y = np.zeros_like(X)
        for s in range(m + n - 1):
            ii = [(i, s - i) for i in range(m) if 0 <= s - i < n]
            v = sum(X[i] for i in ii) / len(ii)
            for i in ii:
                Y[i] = v
        return Y.ravel()

    def viol(self, p, x):
        return float(np.max(np.abs(x - self.prox(p, x, 1.0))))


# ---------------------------------------------------------------- non-convex sets
@reg
class L0Ball(Ind):
    convex = False
    invariant = "s"

    def params(self, draw, n, cplx):
        return {"radius": draw(st.integers(0, n + 1))}

    def build(self, p):
        return pp.L0Ball(p["radius"])

    def viol(self, p, x):
        a = np.sort(np.abs(x))[::-1]
        return float(np.max(a[p["radius"]:], initial=0.0))

    def dist2(self, p, x):
        a = np.sort(np.abs(x).ravel())[::-1]
        return fsum(a[p["radius"]:] ** 2)


@reg
class L10Ball(Ind):
    convex = False
    invariant = "s"

    def params(self, draw, n, cplx):
        return {"nd": draw(st.integers(1, 4)), "radius": draw(st.integers(0, n + 1))}

    def shape(self, p):
        return (p["nd"] * p["n"],)

    def build(self, p):
        return pp.L10Ball(p["nd"], p["radius"])

    def col2(self, p, x):
        X = x.reshape(p["nd"], p["n"])
        return np.sort([fsum(np.abs(X[:, j]) ** 2) for j in range(p["n"])])[::-1]

    def viol(self, p, x):
        return math.sqrt(float(np.max(self.col2(p, x)[p["radius"]:], initial=0.0)))

    def dist2(self, p, x):
        return fsum(self.col2(p, x)[p["radius"]:])


# ---------------------------------------------------------------- non-convex functions
class Pen(Base):
    """separable penalties given by a scalar function of |x|"""
    convex = False
    separable = True
    invariant = "ps"

    def val(self, p, x):
        return fsum([self.phi(p, r) for r in np.abs(x).ravel().tolist()])


@reg
class L0(Pen):
    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw)}

    def build(self, p):
        return pp.L0(sigma=p["sigma"])

    def phi(self, p, r):
        return 1.0 if r > 0 else 0.0

    def prox(self, p, x, tau):
        t = tau * p["sigma"]
        return np.array([v if abs(v) > t else 0 * v for v in x], dtype=x.dtype)

    def special(self, p, tau):
        return (tau * p["sigma"],)


@reg
class Log(Pen):
    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw), "gamma": gen.pos(draw)}

    def build(self, p):
        return pp.Log(p["sigma"], p["gamma"])

    def phi(self, p, r):
        return p["sigma"] * math.log1p(p["gamma"] * r) / math.log1p(p["gamma"])

    def special(self, p, tau):
        g = p["gamma"]
        k = tau * p["sigma"] / math.log1p(g)
        # zero of the discriminant (appearance of the second stationary point), kink
        return (k * g, max(0.0, (2 * g * math.sqrt(k) - 1) / g), p["sigma"], 1.0)


@reg
class Log1(Pen):
    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw), "delta": draw(st.sampled_from([1e-10, 1e-3, 0.1, 0.5, 1.0, 2.0, 5.0]))}

    def build(self, p):
        return pp.Log1(p["sigma"], p["delta"])

    def phi(self, p, r):
        return p["sigma"] * math.log(r + p["delta"])

    def prox(self, p, x, tau):
        """documented log-thresholding"""
        ts, d = tau * p["sigma"], p["delta"]
        x0 = max(math.sqrt(2 * ts) - d, 0.0)
        o = np.zeros_like(x)
        for i, v in enumerate(x):
            a = abs(v)
            if a > x0:
                r = max(0.0, 0.5 * (a - d + math.sqrt(max(0.0, (a + d) ** 2 - 2 * ts))))
                o[i] = v / a * r
        return o

    def special(self, p, tau):
        return (max(0.0, math.sqrt(2 * tau * p["sigma"]) - p["delta"]), p["delta"])


@reg
class ETP(Pen):
    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw), "gamma": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0, 10.0]))}

    def build(self, p):
        return pp.ETP(p["sigma"], p["gamma"])

    def phi(self, p, r):
        return p["sigma"] * math.expm1(-p["gamma"] * r) / math.expm1(-p["gamma"])

    def special(self, p, tau):
        g = p["gamma"]
        k = tau * p["sigma"] / -math.expm1(-g)
        return (g * k, max(0.0, (1 + math.log(k * g * g)) / g) if k * g * g > 0 else 0.0)


@reg
class Geman(Pen):
    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw), "gamma": gen.pos(draw)}

    def build(self, p):
        return pp.Geman(p["sigma"], p["gamma"])

    def phi(self, p, r):
        return p["sigma"] * r / (r + p["gamma"])

    def special(self, p, tau):
        g = p["gamma"]
        k = tau * p["sigma"] * g
        return (max(0.0, 1.5 * (2 * k) ** (1 / 3) - g), tau * p["sigma"] / g)


@reg
class SCAD(Pen):
    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw), "a": draw(st.sampled_from([2.1, 2.5, 3.0, 3.7, 6.0]))}

    def build(self, p):
        return pp.SCAD(p["sigma"], p["a"])

    def maxtau(self, p):
        return 0.999 * (p["a"] - 1)

    def phi(self, p, r):
        s, a = p["sigma"], p["a"]
        if r <= s:
            return s * r
        if r <= a * s:
            return (-r * r + 2 * a * s * r - s * s) / (2 * (a - 1))
        return (a + 1) * s * s / 2

    def special(self, p, tau):
        s, a = p["sigma"], p["a"]
        return (s, a * s, s * tau, s * (1 + tau))


@reg
class QECard(Pen):
    def params(self, draw, n, cplx):
        return {"mu": gen.pos(draw)}

    def build(self, p):
        return pp.QuadraticEnvelopeCard(p["mu"])

    def phi(self, p, r):
        m = p["mu"]
        return m - 0.5 * max(0.0, math.sqrt(2 * m) - r) ** 2

    def special(self, p, tau):
        m = math.sqrt(2 * p["mu"])
        return (m, tau * m, m / 2) + ((0.5 * (1 + tau) * m, (0.1 + 0.9 * tau) * m) if tau < 1 else ())


@reg
class QECardInd(Base):
    convex = False
    invariant = "ps"

    def params(self, draw, n, cplx):
        return {"r0": draw(st.integers(1, n))}

    def build(self, p):
        return pp.QuadraticEnvelopeCardIndicator(p["r0"])

    def val(self, p, x):
        return 0.5 * ksupport2(np.abs(x).ravel(), p["r0"]) - 0.5 * fsum(np.abs(x) ** 2)

    def special(self, p, tau):
        return (1.0, 1.0 / tau)


def ksupport2(a, k):
    """squared k-support norm of a non-negative vector by its dual: max_u 2<a,u> - sum of k largest u^2

    evaluated by searching the interval of the closed form (Argyriou, Foygel, Srebro 2012)."""
    a = np.sort(np.asarray(a, dtype=float))[::-1]
    n = a.size
    if k >= n:
        return fsum(a ** 2)
    best = None
    for r in range(k):
        # first k-r-1 entries individually, the remaining sum shared by r+1
        head, tail = a[: k - r - 1], a[k - r - 1:]
        t = fsum(tail)
        avg = t / (r + 1)
        lo = a[k - r - 2] if k - r - 2 >= 0 else math.inf
        hi = a[k - r - 1]
        v = fsum(head ** 2) + t * t / (r + 1)
        gap = max(avg - lo, hi - avg, 0.0) if lo != math.inf else max(hi - avg, 0.0)
        if best is None or gap < best[0] - 1e-15 * (1 + a[0]):
            best = (gap, v)
    return best[1]


@reg
class RelaxedMS(Base):
    convex = False
    separable = True

    def params(self, draw, n, cplx):
        return {"sigma": gen.pos(draw), "kappa": gen.pos(draw)}

    def build(self, p):
        return pp.RelaxedMumfordShah(sigma=p["sigma"], kappa=p["kappa"])

    def val(self, p, x):
        return min(p["sigma"] * fsum(np.abs(x) ** 2), p["kappa"])

    def prox(self, p, x, tau):
        s, k = p["sigma"], p["kappa"]
        t = math.sqrt(k / s * (1 + 2 * tau * s))
        return np.array([v / (1 + 2 * tau * s) if abs(v) <= t else v for v in x], dtype=x.dtype)

    def special(self, p, tau):
        s, k = p["sigma"], p["kappa"]
        return (math.sqrt(k / s * (1 + 2 * tau * s)), math.sqrt(k / s))


CONVEX_FUN = ["L1", "L1W", "L2", "L2Op", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Euclidean", "Quadratic"]
CONVEX_IND = ["Box", "EuclideanBall", "L1Ball", "SimplexSet", "HalfSpace", "AffineSet", "NuclearBall", "Hankel"]
PENALTIES = ["L0", "Log", "Log1", "ETP", "Geman", "SCAD", "QECard"]


def convex_fun(p):
    o = get(p)
    return o.convex and (not hasattr(o, "is_convex") or o.is_convex(p))


def vscale(p, x):
    """magnitude of the terms summed in the value (for tolerances)"""
    o = get(p)
    n = p["op"]
    ax = np.abs(x)
    if n == "L2":
        s = p["sigma"] * fsum((ax + (np.abs(arr(p["b"])) if "b" in p else 0)) ** 2)
    elif n == "L2Op":
        s = p["sigma"] * fsum((np.abs(o.A(p)) @ ax + np.abs(arr(p["b"]))) ** 2)
    elif n == "Quadratic":
        s = abs(p["c"]) + (fsum(np.abs(arr(p["b"])) * ax) if "b" in p else 0)
        if "R" in p:
            s += fsum((np.abs(arr(p["R"], (p["r"], p["n"]))) @ ax) ** 2)
        return s
    elif n == "QECardInd":
        return fsum(ax) ** 2
    elif n == "L1" and "g" in p:
        return p["sigma"] * fsum(ax + np.abs(arr(p["g"])))
    elif n == "Log1":
        return p["sigma"] * fsum(np.abs(np.log(ax + p["delta"])))
    elif n == "QECard":
        return p["mu"] * ax.size
    elif n == "Log":     # rounding of log(1 + small)
        return 1e-5 * ax.size * p["sigma"] / math.log1p(p["gamma"])
    elif n == "ETP":
        return 1e-5 * ax.size * p["sigma"] / -math.expm1(-p["gamma"])
    else:
        return 0.0
    if "q" in p:
        s += p["alpha"] * fsum(np.abs(arr(p["q"])) * ax)
    return s


def ldp(G, h, x):
    """projection of x on {y: G y <= h} (Lawson & Hanson least distance programming by NNLS)"""
    from scipy.optimize import nnls
    f = G @ x - h
    # y = x + d, minimise |d| s.t. -G d >= f
    if np.all(f <= 0):
        return x.copy()
    E = np.vstack([-G.T, f[None, :]])
    s = max(1.0, float(np.max(np.abs(f))))
    E[-1] /= s
    e = np.zeros(E.shape[0])
    e[-1] = 1.0
    u, _ = nnls(E, e, maxiter=100 * E.shape[1] + 100)
    r = E @ u - e
    if abs(r[-1]) < 1e-13:
        return None       # infeasible
    return x - s * r[:-1] / r[-1]
