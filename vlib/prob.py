"""Composite problems for the solvers: smooth quadratic f with controlled spectrum, any g of the
catalogue, and optimality certificates computed with the independent references of vlib.ops."""
import numpy as np
import pylops
import pyproximal as pp
from hypothesis import strategies as st

from pyproximal.utils.bilinear import LowRankFactorizedMatrix

from . import gen, ops, recur, trees
from .gen import arr

G_ALL = ["L1", "L1", "L2", "Euclidean", "Huber", "L21", "Box", "EuclideanBall", "HalfSpace", "SimplexSet", "L1Ball",
         "HuberCircular", "Nuclear", "L2Op"]
G_CPLX = ["L1", "L2", "Euclidean", "EuclideanBall"]


def draw_lin(draw, n, m=None, cplx=False, full=True, lo=0.5, hi=1.5):
    """linear operator with chosen singular values"""
    m = m or (draw(st.integers(n, n + 2)) if full else draw(st.integers(1, n + 1)))
    if m == n and draw(st.integers(0, 7)) == 0 and lo <= 1.0 <= hi:     # the identity of pylops, which hands its argument back
        return {"m": m, "n": n, "s": [1.0] * n, "eye": True, "cplx": cplx, "scale": 1.0, "form": draw(st.sampled_from(["eye", "explicit"]))}
    r = min(m, n)
    s = [draw(st.integers(0, 8)) / 8 * (hi - lo) + lo for _ in range(r)]
    if not full and draw(st.booleans()):
        s[-1] = 0.0
    return {"m": m, "n": n, "s": s, "seed": draw(gen.seeds()), "cplx": cplx, "scale": draw(st.sampled_from([0.2, 1.0, 1.0, 4.0])),
            "form": draw(st.sampled_from(["explicit", "function", "sparse"]))}


def dense(a):
    if a.get("eye"):
        return np.eye(a["n"], dtype=complex if a["cplx"] else float)
    g = gen.rng(a["seed"])

    def orth(k):
        M = g.standard_normal((k, k)) + (1j * g.standard_normal((k, k)) if a["cplx"] else 0)
        return np.linalg.qr(M)[0]
    U, V = orth(a["m"]), orth(a["n"])
    r = len(a["s"])
    return a["scale"] * (U[:, :r] * np.array(a["s"])) @ V[:r]


def linop(a, A=None):
    A = dense(a) if A is None else A
    if a["form"] == "explicit":
        return pylops.MatrixMult(A, dtype=A.dtype)
    if a["form"] == "eye":
        return pylops.Identity(a["n"], dtype=A.dtype)
    if a["form"] == "sparse":   # matrix-free product
        return pylops.MatrixMult(A, dtype=A.dtype) * pylops.Identity(A.shape[1], dtype=A.dtype)
    return pylops.FunctionOperator(lambda v: A @ v, lambda v: A.conj().T @ v, A.shape[0], A.shape[1], dtype=A.dtype)


def draw_f(draw, n, cplx=False, full=True):
    a = draw_lin(draw, n, None, cplx, full)
    return {"a": a, "b": gen.vec(draw, a["m"], cplx, style=(8, 2), scale=False), "sigma": draw(st.sampled_from([0.5, 1.0, 2.0]))}


class F:
    """sigma/2 |A x - b|^2"""

    def __init__(self, c):
        self.c = c
        self.A, self.b, self.sigma = dense(c["a"]), arr(c["b"]), c["sigma"]
        s = np.zeros(c["a"]["n"])
        sv = np.linalg.svd(self.A, compute_uv=False)
        s[:sv.size] = sv
        self.L, self.mu = self.sigma * s.max() ** 2, self.sigma * s.min() ** 2

    def op(self, **kw):
        return pp.L2(Op=linop(self.c["a"], self.A), b=self.b.copy(), sigma=self.sigma, **kw)

    def val(self, x):
        return self.sigma / 2 * float(np.sum(np.abs(self.A @ x - self.b) ** 2))

    def grad(self, x):
        return self.sigma * (self.A.conj().T @ (self.A @ x - self.b))

    def prox(self, x, tau):
        n = self.A.shape[1]
        r = np.sqrt(tau * self.sigma)
        return np.linalg.lstsq(np.vstack([r * self.A, np.eye(n)]), np.concatenate([r * self.b, x]), rcond=None)[0]


def draw_g(draw, n, cplx=False, names=None):
    """spec of g on vectors of n entries"""
    name = draw(st.sampled_from(names or (G_CPLX if cplx else G_ALL)))
    o = ops.REG[name]
    if name == "Nuclear":
        ms = [m for m in (1, 2, 3) if n % m == 0]
        m = draw(st.sampled_from(ms))
        return {"op": "Nuclear", "n": n // m, "m": m, "cplx": False, "sigma": gen.pos(draw)}
    p = o.spec(draw, n, cplx)
    if name == "L21":
        nd = draw(st.sampled_from([d for d in (1, 2, 3) if n % d == 0]))
        p["nd"], p["n"] = nd, n // nd
    if "xtol" in p:
        p["xtol"] = 1e-10
    return p


def gprox(p, x, tau):
    return ops.get(p).prox(p, x.reshape(ops.get(p).shape(p)), tau).ravel()


def gval(p, x):
    o = ops.get(p)
    x = x.reshape(o.shape(p))
    if o.ind:
        return 0.0 if o.viol(p, x) <= 1e-7 * (1 + float(np.max(np.abs(x)))) else np.inf
    return o.val(p, x)


def residual(f, p, x, eps=1.0):
    """norm of the prox-gradient residual of f + eps g at x, and its scale, with the step 1/L"""
    t = 1.0 / max(f.L, 1e-12)
    y = gprox(p, x - t * f.grad(x), eps * t)
    return float(np.linalg.norm(x - y)), y


def solve(f, p, eps=1.0, n=None, iters=4000, tol=1e-13):
    """independent minimiser of f + eps g: restarted accelerated proximal gradient with the references"""
    n = n or f.A.shape[1]
    x = np.zeros(n, dtype=f.A.dtype)
    y, t, L = x, 1.0, max(f.L, 1e-12)
    for k in range(iters):
        xn = gprox(p, y - f.grad(y) / L, eps / L)
        if np.real(np.vdot(y - xn, xn - x)) > 0:   # restart
            t, y = 1.0, x
            xn = gprox(p, y - f.grad(y) / L, eps / L)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        d = np.linalg.norm(xn - x)
        y = xn + (t - 1) / tn * (xn - x)
        t = tn
        x = xn
        if d <= tol * (1 + np.linalg.norm(x)):
            r = gprox(p, x - f.grad(x) / L, eps / L)
            if np.linalg.norm(r - x) <= tol * (1 + np.linalg.norm(x)):
                break
    return x


def gshape(p):
    return int(np.prod(ops.get(p).shape(p)))


def solve_lin(f, p, A, eps=1.0, zlin=None, iters=6000, tol=1e-11):
    """(x, y) minimising f(x) + eps g(A x) [+ Re<zlin, x>] for strongly convex f: restarted accelerated ascent on the dual; None if not settled"""
    H = f.sigma * f.A.conj().T @ f.A
    Hi = np.linalg.inv(H)
    c = f.sigma * f.A.conj().T @ f.b - (0 if zlin is None else zlin)
    K = A @ Hi @ A.conj().T
    L = float(np.linalg.norm(K, 2))
    s = 1.0 / max(L, 1e-12)
    y = np.zeros(A.shape[0], dtype=np.result_type(A, H))
    w, t = y, 1.0

    def step(w):
        x = Hi @ (c - A.conj().T @ w)
        v = w + s * (A @ x)
        z = gprox(p, v / s, eps / s)
        return v - s * z, x, z
    for k in range(iters):
        yn, x, z = step(w)
        if nrm_(A @ x - z) <= tol * (1 + nrm_(z) + nrm_(x)):
            return x, w
        if np.real(np.vdot(w - yn, yn - y)) > 0:
            t, w = 1.0, y
            yn, x, z = step(w)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        w = yn + (t - 1) / tn * (yn - y)
        t, y = tn, yn
    return None


def nrm_(x):
    return float(np.linalg.norm(x))


# ------------------------------------------------------------------ bilinear data fits
def draw_lr(draw, withop=True):
    n, k, m = draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 4))
    cplx = draw(st.integers(0, 3)) == 0
    c = {"n": n, "k": k, "m": m, "cplx": cplx, "op": None}
    if withop and draw(st.booleans()):
        q = draw(st.integers(1, n * m))
        c["op"] = {"q": q, "A": gen.mat(draw, q, n * m, cplx, 4, 2), "form": draw(st.sampled_from(["matrix", "function"]))}
    q = c["op"]["q"] if c["op"] else n * m
    c["d"] = gen.vec(draw, q, cplx, style=(8, 2), scale=False)
    c["x0"] = gen.vec(draw, n * k, cplx, style=(8, 2), scale=False)
    c["y0"] = gen.vec(draw, k * m, cplx, style=(8, 2), scale=False)
    return c


def mklr(c):
    n, k, m = c["n"], c["k"], c["m"]
    d = gen.arr(c["d"])
    A = Op = None
    if c["op"]:
        A = gen.arr(c["op"]["A"], (c["op"]["q"], n * m))
        Op = pylops.MatrixMult(A, dtype=A.dtype) if c["op"]["form"] == "matrix" else pylops.FunctionOperator(
            lambda v: A @ v, lambda v: A.conj().T @ v, A.shape[0], A.shape[1], dtype=A.dtype)
    x0, y0 = gen.arr(c["x0"]), gen.arr(c["y0"])
    H = LowRankFactorizedMatrix(x0.reshape(n, k).copy(), y0.reshape(k, m).copy(), d.copy(), Op)
    return H, recur.LowRank(n, k, m, d, A), x0, y0
