"""C13 quadratic data-fit proxes with every solver path."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

import pylops
import pyproximal as pp
from vlib import gen, ops
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out, same, same_num, scalar

RULE = ("cases: operator (explicit or matrix-free, tall/wide/zero rows, real/complex), data, q, weights, solver path, and a "
        "sequence of prox calls with repeated and changing steps interleaved with value/gradient calls; "
        "non-trivial: at least two calls and a non-zero operator")
ASSUMPTIONS = ["reference: least squares on the stacked system (QR/SVD), independent of the normal equations",
               "iterative paths are given tight tolerances and 60 n + 60 iterations, or their default tolerances with the "
               "accuracy these guarantee (the system matrix is bounded below by the identity)"]


def draw_A(draw, m, n, cplx):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return {"diag": gen.vec(draw, n, cplx, style=(4, 2), scale=False)}
    if kind == 1 and n >= 2 and not cplx:
        return {"deriv": n}
    return {"A": gen.mat(draw, m, n, cplx), "m": m, "s": draw(st.sampled_from([0.1, 1.0, 1.0, 3.0]))}


def dense(a, n):
    if "diag" in a:
        return np.diag(gen.arr(a["diag"]))
    if "deriv" in a:
        D = np.zeros((n, n))
        for i in range(n - 1):
            D[i, i], D[i, i + 1] = -1, 1
        return D
    return a["s"] * gen.arr(a["A"], (a["m"], n))


def linop(a, n, form):
    A = dense(a, n)
    if form == "explicit":
        return pylops.MatrixMult(A, dtype=A.dtype)
    if form == "free" and "diag" in a:
        return pylops.Diagonal(gen.arr(a["diag"]), dtype=A.dtype)
    if form == "free" and "deriv" in a:
        return pylops.FirstDerivative(n, kind="forward", dtype="float64")
    if form == "product":   # a product of explicit operators is matrix-free
        return pylops.MatrixMult(A, dtype=A.dtype) * pylops.Identity(n, dtype=A.dtype)
    return pylops.FunctionOperator(lambda v: A @ v, lambda v: A.conj().T @ v, A.shape[0], n, dtype=A.dtype)


PATHS = [("explicit", s, ds) for s in ("legacy", "cg", "cgls") for ds in (None, "numpy", "scipy", "factorize")] + \
        [(f, s, None) for f in ("free", "product", "function") for s in ("legacy", "cg", "cgls")]


@gen.mk
def case(draw):
    cplx = draw(st.integers(0, 3)) == 0
    n, m = draw(st.integers(1, 6)), draw(st.integers(1, 7))
    a = draw_A(draw, m, n, cplx)
    if "A" not in a:
        m = n
    c = {"n": n, "cplx": cplx, "A": a, "b": gen.vec(draw, m, cplx, scale=False, style=(8, 2)), "sigma": gen.pos(draw),
         "path": draw(st.sampled_from(PATHS)), "warm": draw(st.booleans()), "default": draw(st.integers(0, 3)) == 0}
    if draw(st.booleans()):
        c["q"] = gen.vec(draw, n, cplx, scale=False, style=(8, 2))
        c["alpha"] = gen.pos(draw)
    if draw(st.booleans()):
        c["x0"] = gen.vec(draw, n, cplx, scale=False, style=(8, 2))
    taus = [gen.pos(draw) for _ in range(2)]
    # steps that nearly coincide must not share anything computed for one of them
    taus.append(taus[0] * (1 + draw(st.sampled_from([1e-2, 1e-3, 1e-5, -1e-4, 3e-6]))))
    c["calls"] = [{"tau": draw(st.sampled_from(taus)), "x": gen.vec(draw, n, cplx, scale=False, style=(20, 4)),
                   "what": draw(st.sampled_from(["prox", "prox", "prox", "prox", "proxdual", "grad", "value"]))}
                  for _ in range(draw(st.integers(1, 6)))]
    return c


def ref_prox(A, b, q, sigma, x, tau):
    r = np.sqrt(tau * sigma)
    G = np.vstack([r * A, np.eye(A.shape[1])])
    return np.linalg.lstsq(G, np.concatenate([r * b, x - tau * q]), rcond=None)[0]


def S_of(c):
    """magnitude of the right hand sides met by the sequence of calls"""
    A = dense(c["A"], c["n"])
    return max(nrm(gen.arr(k["x"])) * max(1, 1 / k["tau"]) + max(k["tau"], 1 / k["tau"]) * (
        c["sigma"] * np.linalg.norm(A, 2) * nrm(gen.arr(c["b"])) + (c["alpha"] * nrm(gen.arr(c["q"])) if "q" in c else 0.0))
        for k in c["calls"])


def l2kw(c):
    form, solver, ds = c["path"]
    kw = dict(sigma=c["sigma"], warm=c["warm"], solver=solver, densesolver=ds, niter=60 * c["n"] + 60)
    if not c["default"]:
        S = S_of(c)
        # absolute tolerances on squared residuals
        e2 = (1e-12 * (S + (nrm(gen.arr(c["x0"])) if "x0" in c else 0.0))) ** 2
        kw["kwargs_solver"] = {"legacy": dict(atol=1e-14, btol=1e-14, conlim=1e14), "cg": dict(tol=e2), "cgls": dict(tol=e2)}[solver]
    if "q" in c:
        kw.update(q=gen.arr(c["q"]), alpha=c["alpha"])
    if "x0" in c:
        kw["x0"] = gen.arr(c["x0"])
    return kw


def run_l2(c):
    n = c["n"]
    A = dense(c["A"], n)
    b = gen.arr(c["b"])
    q = c.get("alpha", 1.0) * gen.arr(c["q"]) if "q" in c else np.zeros(n)
    form, solver, ds = c["path"]
    op = pp.L2(Op=linop(c["A"], n, form), b=gen.arr(c["b"]), **l2kw(c))
    sA = np.linalg.norm(A, 2)
    for k, call in enumerate(c["calls"]):
        tau, x = call["tau"], gen.arr(call["x"])
        x0 = x.copy()
        if call["what"] == "grad":
            same(op.grad(x), c["sigma"] * A.conj().T @ (A @ x - b) + q, "grad (call %d)" % k,
                 c["sigma"] * sA * (sA * nrm(x) + nrm(b)) + mx(q), 1e-9)
            continue
        if call["what"] == "value" and not c["cplx"]:
            same_num(scalar(op(x), "value"), 0.5 * c["sigma"] * nrm(A @ x - b) ** 2 + float(np.dot(q, x)), "value (call %d)" % k,
                     c["sigma"] * (sA * nrm(x) + nrm(b)) ** 2 + nrm(q) * nrm(x), 1e-9)
            continue
        if call["what"] == "proxdual":
            z, t = x / tau, 1 / tau
        else:
            z, t = x, tau
        cond = 1 + t * c["sigma"] * sA ** 2
        if cond > 1e5 and form != "explicit":
            raise Skip()
        ref = ref_prox(A, b, q, c["sigma"], z, t)
        rhs = nrm(z) + t * c["sigma"] * sA * nrm(b) + t * nrm(q)
        tol = 1e-9 * rhs + 1e-14 * cond * rhs
        if form != "explicit":
            if not c["default"]:
                tol = 1e-10 * S_of(c) + (1e-9 + 1e-13 * cond) * (rhs + nrm(gen.arr(c["x0"])) * ("x0" in c) if "x0" in c else rhs) * cond ** 0.5
            elif solver == "legacy":
                tol = 1e-5 * cond * (rhs + (nrm(gen.arr(c["x0"])) if "x0" in c else 0)) * 3
            else:   # cg: |residual|^2 <= 1e-4; cgls: |residual of the stacked normal equations|^2 below its tolerance
                tol = 0.02 + 1e-6 * rhs
            if c["warm"]:
                tol *= 3
            if solver == "legacy" and nrm(z + t * c["sigma"] * A.conj().T @ b - t * q) < 1e-6 * (rhs + nrm(gen.arr(c["x0"])) if "x0" in c else rhs):
                raise Skip()   # scipy's stopping rule is relative to the right hand side
        if call["what"] == "proxdual":
            ref, tol = x - tau * ref, tau * tol + 1e-12 * nrm(x)
            y = op.proxdual(x, tau)
        else:
            y = op.prox(x, tau)
        y = out(y, (n,), "L2.%s" % call["what"], cplx=c["cplx"] and None)
        if not np.array_equal(x, x0):
            raise Violation("L2.prox modified its input")
        if nrm(y - ref) > tol:
            raise Violation("L2.%s, path %s, call %d (tau=%g): error %g (allowed %g)\n got      %s\n expected %s" % (
                call["what"], c["path"], k, tau, nrm(y - ref), tol, y, ref))
    return "-".join(str(s) for s in c["path"]) + ("-c" if c["cplx"] else "") if len(c["calls"]) > 1 and mx(A) > 0 else ""


sub("l2", case, quick=900)(run_l2)


@gen.mk
def pair(draw):
    c = draw(case)
    c["paths"] = [draw(st.sampled_from(PATHS)) for _ in range(2)]
    c["default"] = False
    c.pop("x0", None)
    return c


@sub("paths_agree", pair, quick=200)
def _(c):
    """every path follows the same sequence of prox calls (each fed with the previous result)"""
    n = c["n"]
    A = dense(c["A"], n)
    ys = []
    for p in c["paths"]:
        d = dict(c, path=p)
        op = pp.L2(Op=linop(c["A"], n, p[0]), b=gen.arr(c["b"]), **l2kw(d))
        x = gen.arr(c["calls"][0]["x"])
        y = []
        for call in c["calls"]:
            if 1 + call["tau"] * c["sigma"] * np.linalg.norm(A, 2) ** 2 > 1e4:
                raise Skip()
            x = op.prox(0.5 * (x + gen.arr(call["x"])), call["tau"])
            y.append(x)
        ys.append(y)
    for k, (a, b) in enumerate(zip(*ys)):
        same(a, b, "paths %s after %d calls" % (c["paths"], k + 1), 1 + mx(a) + 10 * mx(gen.arr(c["b"])), 1e-7)
    return "pair" if c["paths"][0] != c["paths"][1] and len(c["calls"]) > 1 else ""


@gen.mk
def quad(draw):
    n = gen.dim(draw, 6)
    r = draw(st.integers(1, n))
    c = {"n": n, "R": gen.mat(draw, r, n), "r": r, "free": draw(st.booleans()), "c": gen.num(draw), "warm": draw(st.booleans()),
         "calls": [{"tau": gen.pos(draw), "x": gen.rvec(draw, n, scale=False)} for _ in range(draw(st.integers(1, 5)))]}
    if draw(st.booleans()):
        c["b"] = gen.rvec(draw, n, scale=False)
    if draw(st.booleans()):
        c["x0"] = gen.rvec(draw, n, scale=False)
    if draw(st.integers(0, 2)) == 0:       # weak quadratics with long steps, and the reverse
        c["unit"] = draw(st.sampled_from([1e-8, 1e-5, 1e-3, 1e3]))
    return c


@sub("quadratic", quad, quick=300)
def _(c):
    n = c["n"]
    u = c.get("unit", 1.0)
    R = np.sqrt(u) * gen.arr(c["R"], (c["r"], n))
    A = R.T @ R
    Op = pylops.MatrixMult(A)
    if c["free"]:
        Op = pylops.FunctionOperator(lambda v: A @ v, lambda v: A @ v, n, n)
    op = pp.Quadratic(Op=Op, b=u * gen.arr(c["b"]) if "b" in c else None, c=c["c"], niter=60 * n + 60, warm=c["warm"],
                      x0=gen.arr(c["x0"]) if "x0" in c else None)
    b = u * gen.arr(c["b"]) if "b" in c else np.zeros(n)
    s = nrm(gen.arr(c["x0"])) if "x0" in c else 0.0
    first = s
    for k, call in enumerate(c["calls"]):
        x, tau = gen.arr(call["x"]), call["tau"] / u
        G = np.vstack([np.sqrt(tau) * R, np.eye(n)])
        ref = np.linalg.lstsq(G, np.concatenate([np.zeros(c["r"]), x - tau * b]), rcond=None)[0]
        y = out(op.prox(x.copy(), tau), (n,), "Quadratic.prox", cplx=False)
        cond = 1 + tau * np.linalg.norm(A, 2)
        rhs = nrm(x) + tau * nrm(b)
        tol = (1e-9 + 1e-14 * cond) * rhs
        if c["free"]:
            if cond > 1e4 or nrm(x - tau * b) <= 1e-6 * (rhs + s + first):
                raise Skip()   # (scipy's stopping rule is relative to the right hand side)
            tol = 1e-5 * cond * (rhs + s) * 3
            s = nrm(ref) if c["warm"] else s
        if nrm(y - ref) > tol:
            raise Violation("Quadratic.prox call %d: error %g (allowed %g)\n got      %s\n expected %s" % (k, nrm(y - ref), tol, y, ref))
    return ("free" if c["free"] else "explicit") if mx(A) > 0 else ""


@gen.mk
def conv(draw):
    dims = [draw(st.integers(1, 5)) for _ in range(draw(st.integers(1, 3)))]
    dr = draw(st.integers(0, len(dims) - 1))
    n = dims[dr]
    nh = draw(st.integers(1, n + 2))
    nb = draw(st.integers(1, n + nh - 1))
    cplx = draw(st.integers(0, 3)) == 0
    ch, cb, cx = (cplx,) * 3 if draw(st.booleans()) else (draw(st.booleans()), draw(st.booleans()), draw(st.booleans()))
    cplx = ch or cb or cx
    nfft = draw(st.sampled_from([n, n, n + 1, max(n + nh - 1, nb), 16]))
    nh, nb = min(nh, nfft), min(nb, nfft)
    N = int(np.prod(dims))
    full = len(dims) > 1 and draw(st.integers(0, 2)) == 0     # one filter per trace: an array of the dims along the direction
    return {"full": full, "dims": dims, "dir": dr, "nfft": nfft, "nh": nh, "nb": nb, "cplx": cplx, "flat": len(dims) == 1 and draw(st.booleans()),
            "h": gen.vec(draw, nh * (N // n if full else 1), ch, style=(3, 1), scale=False), "b": gen.vec(draw, N // n * nb, cb, style=(8, 2), scale=False),
            "sigma": gen.pos(draw), "calls": [{"tau": gen.pos(draw), "x": gen.vec(draw, N, cx, scale=False)}
                                              for _ in range(draw(st.integers(1, 3)))]}


@sub("convolve", conv, quick=300)
def _(c):
    dims, dr, N = c["dims"], c["dir"], c["nfft"]
    n = dims[dr]
    bd = list(dims)
    bd[dr] = c["nb"]
    h, b = gen.arr(c["h"]), gen.arr(c["b"], bd)
    if c["full"]:
        hd = list(dims)
        hd[dr] = c["nh"]
        h = h.reshape(hd)
    if c["flat"]:
        op = pp.L2Convolve(h, b.ravel(), nfft=N, sigma=c["sigma"])
    else:
        op = pp.L2Convolve(h, b, nfft=N, sigma=c["sigma"], dims=tuple(dims), dir=dr)
    # circulant matrix of the zero-padded kernel
    def circ(v):
        hp = np.zeros(N, dtype=h.dtype)
        hp[: v.size] = v
        return np.stack([np.roll(hp, k) for k in range(N)], axis=1)
    H = np.moveaxis(h, dr, -1) if c["full"] else None
    for call in c["calls"]:
        x, tau = gen.arr(call["x"]), call["tau"]
        y = out(op.prox(x.copy(), tau), x.shape, "L2Convolve.prox", cplx=c["cplx"] and None)
        X = np.moveaxis(x.reshape(dims), dr, -1)
        B = np.moveaxis(b, dr, -1)
        ref = np.zeros(X.shape, dtype=np.result_type(X, B, h))
        r = np.sqrt(tau * c["sigma"])
        for i in np.ndindex(*X.shape[:-1]):
            xp, bp = np.zeros(N, dtype=X.dtype), np.zeros(N, dtype=B.dtype)
            xp[:n], bp[: c["nb"]] = X[i], B[i]
            C = circ(h if H is None else H[i])
            ref[i] = np.linalg.lstsq(np.vstack([r * C, np.eye(N)]), np.concatenate([r * bp, xp]), rcond=None)[0][:n]
        ref = np.moveaxis(ref, -1, dr).ravel()
        sc = mx(x) + np.sqrt(tau * c["sigma"]) * mx(b)
        same(y, ref, "L2Convolve.prox", sc * (1 + r * np.sum(np.abs(h))), 1e-9)
    return ("circ" if N == n else "pad") + "%dd" % len(dims) + ("-full" if c["full"] else "") if mx(h) > 0 and mx(b) > 0 else ""


class Fun(pp.Nonlinear):
    """sum of w log cosh(x - c) + d/2 x^2, minimised by L-BFGS with whichever helper is asked for"""
    def setup(self, w, c, d, how, keep=False):
        self.w, self.c, self.d, self.how, self.calls, self.keep, self.at = w, c, d, how, [], keep, None

    def fun(self, x):
        z = x - self.c
        return float(np.sum(self.w * (np.abs(z) + np.log1p(np.exp(-2 * np.abs(z))) - np.log(2)) + 0.5 * self.d * x ** 2))

    def grad(self, x):
        g = self.w * np.tanh(x - self.c) + self.d * x
        if self.keep:       # the function hands out its own buffer, and counts on it between evaluations at one point
            if self.at is None or not np.array_equal(self.at, x):
                self.at, self.buf = np.array(x, copy=True), g
            return self.buf
        return g

    def optimize(self):
        self.calls.append(np.array(self.x0, copy=True))
        kw = dict(method="L-BFGS-B", options=dict(maxiter=self.niter, ftol=1e-16, gtol=1e-11))
        if self.how == "fungrad":
            return minimize(lambda z: self._fungradprox(z, self.tau), self.x0, jac=True, **kw).x
        return minimize(lambda z: self._funprox(z, self.tau), self.x0, jac=lambda z: self._gradprox(z, self.tau), **kw).x


@gen.mk
def nonlin(draw):
    n = gen.dim(draw, 5)
    return {"n": n, "w": gen.poslist(draw, n), "c": gen.rvec(draw, n, scale=False), "d": draw(st.sampled_from([0.0, 0.5, 2.0])),
            "how": draw(st.sampled_from(["fungrad", "sep"])), "keep": draw(st.booleans()), "warm": draw(st.booleans()), "x0": gen.rvec(draw, n, scale=False),
            "calls": [{"tau": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0, 10.0, 30.0, 0.01])), "x": gen.rvec(draw, n, scale=False)} for _ in range(draw(st.integers(1, 4)))]}


@sub("nonlinear", nonlin, quick=120)
def _(c):
    w, cc, d = np.array(c["w"]), gen.arr(c["c"]), c["d"]
    op = Fun(gen.arr(c["x0"]), niter=2000, warm=c["warm"])
    op.setup(w, cc, d, c["how"], c["keep"])
    last = gen.arr(c["x0"])
    for k, call in enumerate(c["calls"]):
        x, tau = gen.arr(call["x"]), call["tau"]
        g = gen.rng(k).standard_normal(x.size)
        y = out(op.prox(x.copy(), tau), x.shape, "Nonlinear.prox", cplx=False)
        if not np.array_equal(op.calls[-1], last):
            raise Violation("Nonlinear.prox (warm=%s) started call %d from %s instead of %s" % (c["warm"], k, op.calls[-1], last))
        if c["warm"]:
            last = y.copy()
        lo, hi = np.minimum(x - tau * w, np.minimum(cc, 0)) - 1e2 - np.abs(x), np.maximum(x + tau * w, np.maximum(cc, 0)) + 1e2 + np.abs(x)
        for _ in range(200):
            m = 0.5 * (lo + hi)
            s = w * np.tanh(m - cc) + d * m + (m - x) / tau > 0
            hi, lo = np.where(s, m, hi), np.where(s, lo, m)
        if mx(y - m) > 1e-5 * (1 + mx(x)):
            raise Violation("Nonlinear.prox call %d: got %s expected %s" % (k, y, m))
        z = x + g
        same_num(op._funprox(z, tau), op.fun(z) + nrm(z - x) ** 2 / (2 * tau), "_funprox", 0, 1e-10)
        same(op._gradprox(z, tau), op.grad(z) + (z - x) / tau, "_gradprox", mx(x) / tau + mx(z) / tau, 1e-10)
        f, gg = op._fungradprox(z, tau)
        same_num(f, op._funprox(z, tau), "_fungradprox", 0, 1e-10)
        same(gg, op._gradprox(z, tau), "_fungradprox", mx(z) / tau, 1e-10)
    if not op.hasgrad:
        raise Violation("Nonlinear does not declare a gradient")
    return c["how"] + ("-warm" if c["warm"] else "") if len(c["calls"]) > 1 else ""


def krylov_point(M, rhs, x0, j):
    """minimiser of x^T M x / 2 - rhs^T x over x0 + K_j(M, rhs - M x0), M symmetric positive definite"""
    r = rhs - M @ x0
    scale = np.linalg.norm(M, 2) * nrm(x0) + nrm(rhs)
    Q = []
    v = r
    for _ in range(j):
        for _ in range(2):
            for q in Q:
                v = v - q * np.vdot(q, v)
        if nrm(v) <= 1e-7 * scale:   # (nearly) invariant subspace: where the methods stop is a matter of rounding
            break
        Q.append(v / nrm(v))
        v = M @ Q[-1]
    if not Q:
        return x0.copy()
    Q = np.array(Q).T
    return x0 + Q @ np.linalg.solve(Q.T @ M @ Q, Q.T @ r)


@gen.mk
def few(draw):
    n, m = draw(st.integers(2, 6)), draw(st.integers(1, 7))
    c = {"n": n, "m": m, "A": gen.rvec(draw, m * n, (6, 2), scale=False), "b": gen.rvec(draw, m, (8, 2), scale=False),
         "sigma": draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])), "solver": draw(st.sampled_from(["legacy", "cg", "cgls", "quadratic"])),
         "warm": draw(st.booleans()), "ni": [draw(st.integers(1, 4)) for _ in range(8)],
         "kind": draw(st.sampled_from(["int", "fun"])),
         "calls": [{"tau": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])), "x": gen.rvec(draw, n, (8, 2), scale=False)}
                   for _ in range(draw(st.integers(1, 5)))]}
    if draw(st.booleans()):
        c["x0"] = gen.rvec(draw, n, (8, 2), scale=False)
    if draw(st.booleans()):
        c["q"] = gen.rvec(draw, n, (8, 2), scale=False)
    return c


@sub("few_iterations", few, quick=400)
def _(c):
    """with few inner iterations the answer is the Krylov iterate from the documented starting guess: the given
    one, or the last answer when warm started; the number of iterations may depend on the call"""
    n, m = c["n"], c["m"]
    A = np.array(c["A"]).reshape(m, n)
    b = np.array(c["b"])
    quad = c["solver"] == "quadratic"
    ni = (lambda k: c["ni"][k % 8]) if c["kind"] == "fun" and not quad else c["ni"][0]
    x0 = np.array(c["x0"]) if "x0" in c else None
    q = np.array(c["q"]) if "q" in c else np.zeros(n)
    big = 1.0 + mx(A) * mx(b) + mx(q) + sum(mx(np.array(k["x"])) for k in c["calls"]) + (mx(x0) if x0 is not None else 0.0)
    tight = {"legacy": dict(atol=1e-15, btol=1e-15, conlim=1e16), "cg": dict(tol=1e-26 * big ** 2), "cgls": dict(tol=1e-26 * big ** 2)}
    if quad:
        # the starting guess matters only for few iterations
        B = A.T @ A
        op = pp.Quadratic(pylops.FunctionOperator(lambda v: B @ v, lambda v: B @ v, n, n, dtype="float64"), q.copy(), niter=ni,
                          x0=None if x0 is None else x0.copy(), warm=c["warm"])
    else:
        kw = dict(q=q.copy()) if "q" in c else {}
        op = pp.L2(pylops.FunctionOperator(lambda v: A @ v, lambda v: A.T @ v, m, n, dtype="float64"), b.copy(), sigma=c["sigma"],
                   niter=ni, x0=None if x0 is None else x0.copy(), warm=c["warm"], solver=c["solver"],
                   kwargs_solver=tight[c["solver"]], **kw)
    cur = np.zeros(n) if x0 is None else x0.copy()
    s = 1.0 if quad else c["sigma"]
    part = False
    for k, call in enumerate(c["calls"]):
        tau, x = call["tau"], np.array(call["x"])
        G = np.eye(n) + tau * s * A.T @ A
        rhs = x - tau * q if quad else x + tau * s * A.T @ b - tau * q
        j = ni if isinstance(ni, int) else ni(k + 1)
        lsqr = c["solver"] in ("legacy", "quadratic")
        if lsqr and nrm(rhs) < 1e-6 * big:
            raise Skip()
        ex = np.linalg.solve(G, rhs)
        if c["solver"] == "cgls":
            M, r_ = G, rhs
        elif c["solver"] == "cg":
            M, r_ = G, rhs
        else:
            M, r_ = G @ G, G @ rhs
        ref = krylov_point(M, r_, cur, j)
        y = out(op.prox(x.copy(), tau), (n,), "prox", cplx=False)
        cond = np.linalg.cond(M)
        # scipy's default tolerances for Quadratic: an iterate that satisfies them may be returned early
        tol = big * (1e-8 + 1e-12 * cond) * 10
        if quad:
            done = nrm(G @ y - rhs) <= 3e-6 * (nrm(rhs) + np.linalg.norm(G) * (nrm(y) + nrm(cur)))
            tol = max(tol, 1e9 if done else 0)
        if nrm(y - ref) > tol and nrm(y - ex) > 1e-6 * big * np.sqrt(cond):
            raise Violation("%s with %s inner iterations, warm=%s, call %d: got %s, Krylov iterate %s, exact %s" % (
                c["solver"], j, c["warm"], k, y, ref, ex))
        part |= nrm(ref - ex) > 1e-3 * big and k > 0
        if c["warm"]:
            cur = y.copy()
    return "%s-%s-%s" % (c["solver"], c["kind"], "warm" if c["warm"] else "cold") if part else ""
