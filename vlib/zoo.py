"""Every operator of the library, base or composed, with a valid point (no reference implied).

spec: {"z": kind, "N": size, "cplx": bool, ...}; build(spec) constructs a new operator from new
arrays.  With track() active all arrays handed to the library are recorded."""
import contextlib

import numpy as np
import pylops
import pyproximal as pp
from hypothesis import strategies as st

from . import gen, ops, trees

OTHERS = ["TV", "TV", "Simplex2", "SVP", "L2Convolve", "Intersection", "RankL2", "Sum", "GenericIntersection",
          "Nonlinear", "SchedL1", "HyperPlaneBoxLike", "NumbaSimplex", "L2Iter", "Chain", "Adjoint", "OrthC"]


def arr(v, shape=None):
    return gen.arr(v, shape)


@contextlib.contextmanager
def track():
    """record every array created while building"""
    rec = []

    def recorder(v, shape=None):
        a = gen.arr(v, shape)
        rec.append(a)
        return a
    old = ops.arr, trees.arr, globals()["arr"]
    ops.arr = trees.arr = globals()["arr"] = recorder
    try:
        yield rec
    finally:
        ops.arr, trees.arr, globals()["arr"] = old


class Rosen(pp.Nonlinear):
    """fun = sum(x^4)/4 + a x; prox by damped Newton"""

    def setup(self, a):
        self.a = a
        return self

    def fun(self, x):
        return float(np.sum(x ** 4) / 4 + np.sum(self.a * x))

    def grad(self, x):
        return x ** 3 + self.a

    def optimize(self):
        x = self.x0.copy()
        for _ in range(self.niter):
            g = self._gradprox(x, self.tau)
            x = x - g / (3 * x ** 2 + 1.0 / self.tau)
        return x


def draw(draw_, kinds=("reg", "tree", "other"), names=None, maxn=5, cplx=True):
    k = draw_(st.sampled_from(list(kinds)))
    n = gen.dim(draw_, maxn)
    if k == "reg":
        name = draw_(st.sampled_from(names or sorted(ops.REG)))
        o = ops.REG[name]
        p = o.spec(draw_, max(n, o.minn), cplx and draw_(st.integers(0, 2)) == 0)
        return {"z": "reg", "p": p, "shape": list(o.shape(p)), "cplx": p["cplx"]}
    if k == "tree":
        t = trees.draw_tree(draw_, n, draw_(st.integers(1, 3)))
        return {"z": "tree", "t": t, "shape": [n], "cplx": False}
    z = draw_(st.sampled_from(names or OTHERS))
    m, n = draw_(st.integers(2, 4)), draw_(st.integers(2, 4))
    c = {"z": z, "m": m, "n": n, "sigma": gen.pos(draw_), "shape": [m * n], "cplx": False}
    N = m * n
    if z == "TV":
        c["dims"] = draw_(st.sampled_from([[N], [m, n], [m, n], [m, n, 2], [2, m, 2, 2]]))
        c["shape"] = [int(np.prod(c["dims"]))]
        c["niter"] = draw_(st.integers(1, 6))
    elif z in ("Simplex2", "NumbaSimplex"):
        c["axis"] = draw_(st.sampled_from([0, 1, None]))
    elif z == "SVP":
        p = ops.REG[draw_(st.sampled_from(["L1", "Geman", "ETP", "SCAD", "QECard", "Log1", "L0"]))].spec(draw_, min(m, n))
        p.pop("g", None)
        c["p"] = p
    elif z in ("L2Convolve", "RankL2"):
        c["w"] = gen.rvec(draw_, N, (3, 1), scale=False)
        c["r"] = draw_(st.integers(1, min(m, n) - 1))
    elif z in ("Sum", "Chain", "Adjoint", "GenericIntersection"):
        pool = ops.CONVEX_IND if z == "GenericIntersection" else ["L1", "L2", "Box", "Huber", "Euclidean", "EuclideanBall", "L2Op"]
        pool = [q for q in pool if q in ("L1", "L2", "Huber", "Euclidean", "Box", "EuclideanBall", "HalfSpace", "L2Op")]
        c["shape"] = [n]
        c["ps"] = [ops.REG[q].spec(draw_, n) for q in draw_(st.permutations(pool))[:draw_(st.integers(1 if z in ("Sum", "Adjoint") else 2, 3))]]
        c["niter"] = draw_(st.integers(1, 10))
        c["par"] = draw_(st.booleans())
        if draw_(st.booleans()):
            c["w"] = [gen.pos(draw_) for _ in c["ps"]]
    elif z in ("Nonlinear", "SchedL1", "L2Iter"):
        c["w"] = gen.rvec(draw_, n, (3, 1), scale=False)
        c["shape"] = [n]
        c["warm"] = draw_(st.booleans())
        c["A"] = gen.mat(draw_, m, n)
        c["b"] = gen.rvec(draw_, m, (3, 1), scale=False)
        c["solver"] = draw_(st.sampled_from(["cg", "cgls", "legacy"]))
    elif z == "Intersection":
        c["S"] = [draw_(st.integers(1, 24)) / 4 for _ in range(m * m)] if draw_(st.booleans()) else None
    elif z == "OrthC":
        c["shape"] = [n]
        c["ph"] = draw_(st.lists(st.integers(0, 7), min_size=n, max_size=n))
        c["b"] = gen.cvec(draw_, n, scale=False)
        c["cplx"] = True
        c["id"] = draw_(st.integers(0, 2)) == 0     # pylops.Identity returns the very array it is given
    elif z == "HyperPlaneBoxLike":
        c["z"], c["p"] = "reg", ops.REG["Box"].spec(draw_, N)
    return c


def build(c):
    z = c["z"]
    if z == "reg":
        return ops.build(c["p"])
    if z == "tree":
        return trees.build(c["t"])
    m, n, s = c["m"], c["n"], c["sigma"]
    if z == "TV":
        return pp.TV(tuple(c["dims"]), sigma=s, niter=c["niter"])
    if z in ("Simplex2", "NumbaSimplex"):
        eng = "numba" if z == "NumbaSimplex" else "numpy"
        if c["axis"] is None:
            return pp.Simplex(m * n, s, engine=eng, call=True)
        return pp.Simplex(m * n, s, dims=(m, n), axis=c["axis"], engine=eng, call=True)
    if z == "SVP":
        return pp.SingularValuePenalty((m, n), ops.build(c["p"]))
    if z == "L2Convolve":
        w = arr(c["w"])
        return pp.L2Convolve(arr(w[:2]), b=w, nfft=m * n + 1, sigma=s)
    if z == "Intersection":
        return pp.Intersection(m, n, arr(c["S"], (m, m)) if c["S"] else s, niter=5)
    if z == "RankL2":
        return pp.QuadraticEnvelopeRankL2((m, n), c["r"], arr(c["w"], (m, n)))
    if z == "Sum":
        fs = [ops.build(p) for p in c["ps"]]
        return pp.Sum(fs, weights=arr(c["w"]) / sum(c["w"]) if "w" in c else None, niter=c["niter"], tol=0, use_parallel=c["par"])
    if z == "GenericIntersection":
        return pp.GenericIntersectionProx([(lambda v, f=ops.build(p): f.prox(v, 1.0)) for p in c["ps"]], niter=c["niter"],
                                          use_parallel=c["par"])
    if z == "Chain":
        f = ops.build(c["ps"][0])
        for p in c["ps"][1:]:
            f = f.chain(ops.build(p))
        return f
    if z == "Adjoint":
        return ops.build(c["ps"][0]).H
    if z == "Nonlinear":
        return Rosen(arr([0.0] * n), niter=30, warm=c["warm"]).setup(arr(c["w"]))
    if z == "SchedL1":
        return pp.L1(sigma=lambda k: s * (1 + k % 3))
    if z == "L2Iter":
        A = arr(c["A"], (m, n))
        kw = {"legacy": dict(atol=1e-13, btol=1e-13, conlim=1e14), "cg": dict(tol=1e-9), "cgls": dict(tol=1e-9)}[c["solver"]]
        return pp.L2(Op=pylops.FunctionOperator(lambda v: A @ v, lambda v: A.T @ v, m, n), b=arr(c["b"]), sigma=s, niter=200,
                     warm=c["warm"], solver=c["solver"], x0=arr(c["w"]), kwargs_solver=kw)
    if z == "OrthC":
        ph = np.array([gen.PHASES[i] for i in c["ph"]])
        if c.get("id"):
            return pp.Orthogonal(pp.L1(sigma=s), pylops.Identity(len(ph), dtype=complex), b=arr(c["b"]))
        return pp.Orthogonal(pp.L1(sigma=s), pylops.Diagonal(arr({"re": ph.real.tolist(), "im": ph.imag.tolist()})), b=arr(c["b"]))
    raise AssertionError(z)


def iterative(c):
    """result depends on the previous calls up to a solver accuracy (warm starts)"""
    return c["z"] in ("L2Iter", "Nonlinear")


def x(draw_, c, tau=1.0, **kw):
    N = int(np.prod(c["shape"]))
    special = ops.get(c["p"]).special(c["p"], tau) if c["z"] == "reg" else (c.get("sigma", 1.0),)
    return gen.vec(draw_, N, c["cplx"], special=special, **kw)


def name(c):
    if c["z"] == "reg":
        return c["p"]["op"]
    if c["z"] == "tree":
        return trees.show(c["t"])
    return c["z"]


def dscale(c):
    """magnitude of the data inside of the operator"""
    s = 0.0
    def walk(v):
        nonlocal s
        if isinstance(v, dict):
            for q, w in v.items():
                if q not in ("seed",):
                    walk(w)
        elif isinstance(v, (list, tuple)):
            for w in v:
                walk(w)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            s = max(s, abs(v))
    walk(c)
    return s
