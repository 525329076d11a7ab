"""C27 Bregman iterations, SR3, plug-and-play."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal.optimization import bregman, pnp, primal, primaldual, sr3
from vlib import gen, ops, prob, recur, units
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: quadratic f (real/complex), any convex g, inner solvers with their arguments, warm and cold starts, alpha, 1 to 6 outer iterations (recursion) or 15 "
        "(consistency); SR3 problems of any shape, kappa, eps, both inner modes, start; denoisers (linear, thresholding, median, shifts) on 1-3 dimensional shapes with every "
        "solver; non-trivial: iterates move / the relaxed term is active / the denoiser changes its input")
ASSUMPTIONS = ["Bregman inner problems are run with reference recursions and dense algebra", "SR3: the relaxed objective is compared with an independent minimiser",
               "Bregman consistency bound f(x_k) - min f <= alpha g(x*) / k of the cited theory, for accurately solved inner problems"]


class QuadLin:
    """sigma/2 |A x - b|^2 + Re <l, x>"""

    def __init__(self, f, l):
        self.f, self.l = f, l

    def grad(self, x):
        return self.f.grad(x) + self.l

    def prox(self, x, tau):
        return self.f.prox(x - tau * self.l, tau)


NAMES = ["L1", "L1", "L2", "Euclidean", "Huber", "L21", "Box", "EuclideanBall", "HalfSpace"]


@gen.mk
def breg(draw):
    how = draw(st.sampled_from(["PG", "PG", "APG", "ADMM", "LADMM", "HQS"]))
    cplx = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(1, 5))
    f = prob.draw_f(draw, n, cplx, draw(st.booleans()))
    f["a"]["form"] = "explicit"
    m = draw(st.integers(1, 5)) if how == "LADMM" else n
    c = {"how": how, "f": f, "g": prob.draw_g(draw, m, cplx, names=prob.G_CPLX if cplx else NAMES), "x0": gen.vec(draw, n, cplx, style=(8, 2), scale=False),
         "alpha": draw(st.sampled_from([1.0, 1.0, 0.3, 2.0, 5.0, 1e-3, 1e3])), "outer": draw(st.integers(1, 6)), "inner": draw(st.integers(1, 12)), "warm": draw(st.booleans()),
         "frac": draw(st.sampled_from([0.5, 1.0])), "eta": draw(st.sampled_from([1.0, 0.6])), "gfirst": draw(st.booleans()), "fista": draw(st.booleans())}
    if how == "LADMM":
        c["A"] = prob.draw_lin(draw, n, m, cplx, draw(st.booleans()))
    return c


@gen.mk
def breg_stop(draw):
    n = draw(st.integers(1, 5))
    f = prob.draw_f(draw, n, False, draw(st.booleans()))
    f["a"]["form"] = "explicit"
    return {"how": draw(st.sampled_from(["PG", "PG", "ADMM"])), "f": f, "g": prob.draw_g(draw, n, False, names=NAMES), "x0": gen.rvec(draw, n, style=(8, 2), scale=False),
            "alpha": draw(st.sampled_from([1.0, 0.3, 2.0, 1e-3, 1e3])), "outer": draw(st.integers(2, 8)), "inner": draw(st.integers(1, 12)), "warm": draw(st.booleans()),
            "frac": draw(st.sampled_from([0.5, 1.0])), "i": draw(st.integers(0, 7)), "j": draw(st.integers(0, 7)), "q": draw(st.sampled_from([0.5, 1.5, 3.0])),
            "r": draw(st.sampled_from([0.5, 1.5, 1.1])), "off": draw(st.sampled_from([[], ["tolx"], ["tolf"]]))}


@sub("bregman", breg, quick=400)
def _(c):
    f, p, how = prob.F(c["f"]), c["g"], c["how"]
    x0 = gen.arr(c["x0"])
    al = c["alpha"]
    gr = ops.build(p)
    ga = lambda v, t: gr.prox(v, al * t)
    L = max(f.L, 1e-3)
    k = c["inner"]
    A = None
    if how == "PG":
        t = c["frac"] / L
        kw = dict(tau=t, niter=k, eta=c["eta"], acceleration="fista" if c["fista"] and c["eta"] == 1 else None)
        inner = lambda q, x: recur.proximal_gradient(q.grad, ga, x, 1.0, t, k, kw["acceleration"], c["eta"])[-1]
        solver = primal.ProximalGradient
    elif how == "APG":
        t = c["frac"] / L
        kw = dict(tau=t, niter=k)
        inner = lambda q, x: recur.proximal_gradient(q.grad, ga, x, 1.0, t, k, "vandenberghe", 1.0)[-1]
        solver = primal.AcceleratedProximalGradient
    elif how in ("ADMM", "HQS"):
        t = c["frac"] * 2
        kw = dict(tau=t, niter=k, gfirst=c["gfirst"])
        inner = lambda q, x: (recur.admm if how == "ADMM" else recur.hqs)(q.prox, ga, x, x, t, k, c["gfirst"])[-1][0]
        solver = primal.ADMM if how == "ADMM" else primal.HQS
    else:
        A = prob.dense(c["A"])
        LA = max(np.linalg.norm(A, 2) ** 2, 1e-2)
        kw = dict(tau=1.0, mu=0.9 / LA, niter=k)
        inner = lambda q, x: recur.ladmm(q.prox, ga, A, x, A @ x, 1.0, 0.9 / LA, k)[-1][0]
        solver = primal.LinearizedADMM
    its = []
    op = f.op()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x = bregman.Bregman(op, ops.build(p), x0.copy(), solver, A=None if A is None else prob.linop(c["A"], A), alpha=al, niterouter=c["outer"], warm=c["warm"],
                            tolx=0.0, tolf=0.0, bregcallback=lambda v: its.append(v.copy()), **kw)
    q = np.zeros_like(x0)
    xk, ref = x0, []
    for j in range(c["outer"]):
        xk = inner(QuadLin(f, -al * q), xk if c["warm"] else x0)
        q = q - f.grad(xk) / al
        ref.append(xk)
    what = "Bregman(%s, alpha=%g, warm=%s) on %s" % (how, al, c["warm"], p["op"])
    if len(its) != c["outer"]:
        if not (1 <= len(its) < c["outer"] and (f.val(its[-1]) <= 0 or len(its) > 1 and nrm(its[-1] - its[-2]) <= 0)):
            raise Violation("%s: %d callbacks for %d outer iterations" % (what, len(its), c["outer"]))
    if not np.array_equal(x, its[-1]):
        raise Violation("%s returns %s, the last iterate is %s" % (what, x, its[-1]))
    s0 = 1 + mx(x0) + mx(f.b)
    for j, (a, b) in enumerate(zip(its, ref)):
        s = s0 + max(mx(v) for v in ref[:j + 1])
        if s > 1e5 * s0:
            break
        same(out(a, b.shape, what), b, "%s, outer iterate %d" % (what, j + 1), s, 1e-7)
    if abs(f.val(x0) - float(op(x0))) > 1e-9 * (1 + f.val(x0)):
        raise Violation("%s changes the operator f it was given" % what)
    return "%s-%s" % (how, "warm" if c["warm"] else "cold") if len(its) > 1 and nrm(its[-1] - its[0]) > 0 else ""


@sub("stopping", breg_stop, quick=150)
def _(c):
    """the outer loop ends after the first iterate that moved less than tolx or fits better than tolf"""
    f, p = prob.F(c["f"]), c["g"]
    x0 = gen.arr(c["x0"])

    def go(**kw):
        its = []
        op = f.op()
        n0 = max(f.L, 1e-3)
        if c["how"] == "PG":
            s, k = primal.ProximalGradient, dict(tau=c["frac"] / n0, niter=c["inner"])
        else:
            s, k = primal.ADMM, dict(tau=2 * c["frac"], niter=c["inner"])
        x = bregman.Bregman(op, ops.build(p), x0.copy(), s, alpha=c["alpha"], niterouter=c["outer"], warm=c["warm"],
                            bregcallback=lambda v: its.append(v.copy()), **kw, **k)
        return its, x
    its, _ = go(tolx=0.0, tolf=0.0)
    if len(its) < c["outer"]:
        return ""
    mv = [nrm(b - a) for a, b in zip([x0] + its, its)]
    fv = [f.val(v) for v in its]
    if not np.all(np.isfinite(mv + fv)):
        return ""
    kw = {"tolx": mv[c["i"] % len(mv)] * c["q"], "tolf": fv[c["j"] % len(fv)] * c["r"]}
    for key in c["off"]:
        kw[key] = 0.0
    if any(abs(a - t) <= 1e-9 * (a + t) for l, t in ((mv, kw["tolx"]), (fv, kw["tolf"])) for a in l if a or t):
        return ""
    want = next((k + 1 for k in range(len(its)) if mv[k] < kw["tolx"] or fv[k] < kw["tolf"]), len(its))
    got, x = go(**kw)
    if len(got) != want or not np.array_equal(x, its[want - 1]):
        raise Violation("Bregman with %s stops after %d outer iterations; steps %s and misfits %s say %d" % (kw, len(got), mv, fv, want))
    return "%s-%s" % (c["how"], "+".join(sorted(set(("tolx", "tolf")) - set(c["off"])))) if want < len(its) else ""


@gen.mk
def cons(draw):
    n = draw(st.integers(1, 5))
    f = prob.draw_f(draw, n, False, True)
    f["a"]["form"] = "explicit"
    g = prob.draw_g(draw, n, False, names=["L1", "L1", "L2", "Euclidean", "Huber"])
    for k in ("g", "b", "q", "alpha_"):
        g.pop(k, None)
    return {"f": f, "g": g, "alpha": draw(st.sampled_from([1.0, 0.3, 3.0])), "how": draw(st.sampled_from(["PG", "ADMM"])), "warm": draw(st.booleans())}


@sub("consistency", cons, quick=40, budget=(45, 1500))
def _(c):
    """with accurately solved inner problems the misfit never increases and tends to its minimum at the rate alpha g(x*) / k"""
    f, p = prob.F(c["f"]), c["g"]
    n = f.A.shape[1]
    al = c["alpha"]
    xs = np.linalg.lstsq(f.A, f.b, rcond=None)[0]
    fs, gs = f.val(xs), prob.gval(p, xs)
    vals = []
    K, N = 15, 400
    kw = dict(tau=1 / f.L, niter=N, acceleration=None) if c["how"] == "PG" else dict(tau=1 / np.sqrt(f.L * f.mu), niter=N)
    bregman.Bregman(f.op(), ops.build(p), np.zeros(n), primal.ProximalGradient if c["how"] == "PG" else primal.ADMM, alpha=al, niterouter=K, warm=c["warm"],
                    bregcallback=lambda v: vals.append(f.val(v)), **kw)
    what = "Bregman(%s, alpha=%g) on %s" % (c["how"], al, p["op"])
    s = 1 + f.val(np.zeros(n))
    for k, v in enumerate(vals):
        if k and v > vals[k - 1] + 1e-6 * s:
            raise Violation("%s: the misfit increases from %r to %r in outer iteration %d" % (what, vals[k - 1], v, k + 1))
        if v - fs > al * gs / (k + 1) + 1e-5 * s:
            raise Violation("%s: after %d outer iterations the misfit is %r, its minimum %r, the bound on the difference %g" % (what, k + 1, v, fs, al * gs / (k + 1)))
    return "%s-%s" % (c["how"], p["op"]) if vals[0] - fs > 1e-3 * s else ""


# ------------------------------------------------------------------ SR3
@gen.mk
def sr(draw):
    n = draw(st.integers(1, 8))
    a = prob.draw_lin(draw, n, draw(st.integers(1, n + 3)), False, True)
    m = a["m"]
    reg = draw(st.sampled_from(["id", "diff", "dense"]))
    p = n if reg != "dense" else draw(st.integers(1, n + 2))
    return {"a": a, "n": n, "reg": reg, "R": gen.mat(draw, p, n) if reg == "dense" else None, "p": p, "b": gen.rvec(draw, m, style=(8, 2), scale=False),
            "kappa": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0, 10.0])), "eps": draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 3.0])), "x0": gen.rvec(draw, n, style=(8, 2), scale=False) if draw(st.booleans()) else None,
            "adaptive": draw(st.booleans()), "ro": draw(st.booleans())}


def env(v, e, k):
    """min_z e |z|_1 + k/2 |v - z|^2"""
    a = np.abs(v)
    return float(np.sum(np.where(a <= e / k, k / 2 * a * a, e * a - e * e / (2 * k))))


@sub("sr3", sr, quick=300)
def _(c):
    A = prob.dense(c["a"])
    n, p = c["n"], c["p"]
    Lm = np.eye(n) if c["reg"] == "id" else gen.arr(c["R"], (p, n)) if c["reg"] == "dense" else np.vstack([np.diff(np.eye(n), axis=0), np.zeros((1, n))])
    Lop = pylops.Identity(n) if c["reg"] == "id" else pylops.MatrixMult(Lm) if c["reg"] == "dense" else pylops.FirstDerivative(n, kind="forward")
    b, x0 = gen.arr(c["b"]), None if c["x0"] is None else gen.arr(c["x0"])
    k, e = c["kappa"], c["eps"]
    if not np.any(b) and x0 is not None:
        return ""        # (scipy's lsqr returns its starting guess for a vanishing right-hand side)
    bb, xx = b.copy(), None if x0 is None else x0.copy()
    if c["ro"]:
        bb.setflags(write=False)
        if xx is not None:
            xx.setflags(write=False)
    H = np.vstack([A, np.sqrt(k) * Lm])
    sv = np.linalg.svd(H, compute_uv=False)
    if H.shape[0] < n or sv[-1] < 0.05 * sv[0]:
        return ""        # the inner system is singular or ill-conditioned
    x = sr3.SR3(prob.linop(c["a"], A), Lop, bb, k, e, x0=xx, adaptive=c["adaptive"], iter_lim_outer=400, iter_lim_inner=200)
    out(x, (n,), "SR3")
    if not np.array_equal(bb, b) or (x0 is not None and not np.array_equal(xx, x0)):
        raise Violation("SR3 modifies its data or its initial guess")
    F = lambda v: 0.5 * nrm(A @ v - b) ** 2 + env(Lm @ v, e, k)
    # independent minimiser: exact majorisation with the fixed Hessian H^T H
    Mi = np.linalg.inv(A.T @ A + k * Lm.T @ Lm)
    y = np.zeros(n)
    z, t = y, 1.0
    for _ in range(4000):
        v = Lm @ z
        s = np.sign(v) * np.maximum(np.abs(v) - e / k, 0)
        w = Mi @ (A.T @ b + k * Lm.T @ s)
        if np.dot(z - w, w - y) > 0:
            t = 1.0
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        z = w + (t - 1) / tn * (w - y)
        done = nrm(w - y) < 1e-14 * (1 + nrm(w))
        y, t = w, tn
        if done:
            break
    # the plain-text accelerated recursion with exact inner solves: decided only where it has settled well within the iterations
    v, w, t, settled = np.zeros(p), np.zeros(p), 1.0, True
    for i in range(400):
        xr = Mi @ (A.T @ b + k * Lm.T @ v)
        u = Lm @ xr
        wn = np.sign(u) * np.maximum(np.abs(u) - e / k, 0)
        if nrm(v - wn) < 1e-6 * max(1.0, nrm(wn)):
            break
        if i >= 250 and F(xr) - F(y) > 1e-5 * (1 + F(y)):
            settled = False
        t = 2 / (1 + np.sqrt(1 + 4 / t ** 2))
        v, w = wn + (1 - t) * (wn - w), wn
    if not settled or F(xr) - F(y) > 1e-5 * (1 + F(y)):
        return ""
    gap = F(x) - F(y)
    if not gap <= 1e-3 * (1 + F(y)):      # the outer loop rests at a residual of 1e-6, the inner one at LSQR's default accuracy
        raise Violation("SR3(kappa=%g, eps=%g, adaptive=%s): relaxed objective %r at the result, minimum %r" % (k, e, c["adaptive"], F(x), F(y)))
    return "%s-%s" % (c["reg"], c["adaptive"]) if np.any(np.abs(Lm @ y) > e / k) and mx(y) > 0 else ""


# ------------------------------------------------------------------ plug and play
def denoiser(kind):
    def lin(x, tau):
        return x / (1 + tau)

    def soft(x, tau):
        a = np.abs(x)
        return np.where(a > tau, x * (1 - tau / np.maximum(a, 1e-300)), 0 * x)

    def smooth(x, tau):
        y = x.copy()
        for ax in range(x.ndim):
            y = y + tau * 0.1 * (np.roll(y, 1, axis=ax) + np.roll(y, -1, axis=ax) - 2 * y)
        return y

    def rows(x, tau):
        # treats the first axis differently from the others
        w = 1 / (1 + tau * np.arange(1, x.shape[0] + 1))
        return x * w.reshape((-1,) + (1,) * (x.ndim - 1))

    def median(x, tau):
        m = np.mean(x, axis=-1, keepdims=True)
        return m + (x - m) * np.exp(-tau)
    return {"lin": lin, "soft": soft, "smooth": smooth, "rows": rows, "mean": median, "none": lambda x, tau: x.copy()}[kind]


def laid(y, layout):
    """the same array with another memory layout, as denoisers return them"""
    if layout == "F":
        return np.asfortranarray(y)
    if layout == "view":
        z = np.zeros(tuple(2 * k for k in y.shape[::-1]), y.dtype).T
        z[tuple(slice(None, None, 2) for _ in y.shape)] = y
        return z[tuple(slice(None, None, 2) for _ in y.shape)]
    return y


class Den(pp.ProxOperator):
    def __init__(self, fn, dims):
        super().__init__(None, False)
        self.fn, self.dims = fn, dims

    def __call__(self, x):
        return 0.0

    def prox(self, x, tau):
        return np.asarray(self.fn(x.reshape(self.dims), tau)).ravel()


SOLV = ["default", "ADMM", "HQS", "PG", "PGB", "DR", "LADMM", "PD", "Anderson", "APG"]


@gen.mk
def pp_case(draw):
    dims = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    n = int(np.prod(dims))
    s = draw(st.sampled_from(SOLV))
    cplx = s != "Anderson" and draw(st.integers(0, 4)) == 0
    m = n
    c = {"dims": dims, "s": s, "kind": draw(st.sampled_from(["lin", "soft", "smooth", "rows", "rows", "mean"])), "niter": gen.many(draw, 10), "tau": gen.pos(draw),
         "gfirst": draw(st.booleans()), "tupled": draw(st.booleans()), "layout": draw(st.sampled_from(["C", "C", "F", "view", "same"]))}
    if c["layout"] == "same":
        c["kind"] = "none"
    if s in ("LADMM", "PD"):
        m = draw(st.integers(1, 5))       # size of x; g lives on dims
        c["A"] = prob.draw_lin(draw, m, n, cplx)
    f = prob.draw_f(draw, m, cplx, draw(st.booleans()))
    f["a"]["form"] = "explicit"
    c.update(f=f, x0=gen.vec(draw, m, cplx, style=(8, 2), scale=False), z0=gen.vec(draw, n, cplx, style=(8, 2), scale=False) if draw(st.booleans()) else None)
    return c


@sub("plug_and_play", pp_case, quick=500)
def _(c):
    f, s = prob.F(c["f"]), c["s"]
    x0 = gen.arr(c["x0"])
    dims = tuple(c["dims"]) if c["tupled"] else list(c["dims"])
    shapes, taus = [], []
    base = denoiser(c["kind"])

    def den(x, tau):
        shapes.append(np.shape(x))
        taus.append(tau)
        return x if c["layout"] == "same" else laid(base(x, tau), c["layout"])
    L = max(f.L, 1e-3)
    t = c["tau"]
    its, ref = [], []
    kw = dict(niter=c["niter"])
    z0 = None if c["z0"] is None else gen.arr(c["z0"])
    if s == "default":
        solver, kw = primal.ADMM, dict(kw, tau=t)
    elif s == "ADMM":
        solver, kw = primal.ADMM, dict(kw, tau=t, gfirst=c["gfirst"], z0=z0)
    elif s == "HQS":
        solver, kw = primal.HQS, dict(kw, tau=t, gfirst=c["gfirst"], z0=z0)
    elif s in ("PG", "PGB"):
        solver, kw = primal.ProximalGradient, dict(kw, tau=1 / L, epsg=1.5, acceleration="fista") if s == "PG" else dict(kw, tau=1 / L)
    elif s == "APG":
        solver, kw = primal.AcceleratedProximalGradient, dict(kw, tau=1 / L)
    elif s == "Anderson":
        solver, kw = primal.AndersonProximalGradient, dict(kw, tau=1 / L, nhistory=3, epsr=0.1)
    elif s == "DR":
        solver, kw = primal.DouglasRachfordSplitting, dict(kw, tau=t, gfirst=c["gfirst"], eta=0.8)
    else:
        A = prob.dense(c["A"])
        LA = max(np.linalg.norm(A, 2) ** 2, 1e-2)
        if s == "LADMM":
            solver, kw = primal.LinearizedADMM, dict(kw, tau=1.0, mu=0.9 / LA, z0=z0)
        else:
            solver, kw = primaldual.PrimalDual, dict(kw, tau=1.0, mu=0.9 / LA, gfirst=c["gfirst"], returny=True)
        kw["A"] = prob.linop(c["A"], A)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k1 = dict(kw) if s == "default" else dict(kw, solver=solver)
        a = pnp.PlugAndPlay(f.op(), den, dims, x0.copy(), callback=lambda v: its.append(v.copy()), **k1)
        b = solver(f.op(), Den(base, c["dims"]), x0=x0.copy(), callback=lambda v: ref.append(v.copy()), **kw)
    what = "PlugAndPlay(%s, denoiser %s on %s)" % (s, c["kind"], c["dims"])
    if any(sh != tuple(c["dims"]) for sh in shapes) or not shapes:
        raise Violation("%s: the denoiser got arrays of shapes %s" % (what, shapes[:5]))
    if type(a) is not type(b) or (isinstance(a, tuple) and len(a) != len(b)):
        raise Violation("%s returns %s, the solver alone returns %s" % (what, type(a), type(b)))
    s0 = 1 + mx(x0) + (0 if z0 is None else mx(z0))
    va, vb = (a, b) if isinstance(a, tuple) else ((a,), (b,))
    top = max(mx(v) for v in ref + list(vb))
    if np.isfinite(top) and top < 1e6 * s0:
        for u, v in zip(va, vb):
            same(out(u, v.shape, what), v, what, s0 + top, 1e-8)
        if len(its) != len(ref):
            raise Violation("%s: %d callbacks, the solver alone makes %d" % (what, len(its), len(ref)))
        for k, (u, v) in enumerate(zip(its, ref)):
            same(u, v, "%s, iterate %d" % (what, k + 1), s0 + top, 1e-8)
        if s in ("default", "ADMM", "HQS"):
            # and the documented recursion
            pr = Den(base, c["dims"]).prox
            gf = c["gfirst"] if s != "default" else False
            zi = x0 if z0 is None or s == "default" else z0
            r = (recur.hqs if s == "HQS" else recur.admm)(f.prox, pr, x0, zi, t, c["niter"], gf)
            for k, (u, v) in enumerate(zip(its, r)):
                same(u, v[0], "%s, recursion at iterate %d" % (what, k + 1), s0 + top, 1e-7)
    return "%s-%s" % (s, c["kind"]) if len(c["dims"]) > 1 and len(its) > 1 and nrm(its[-1] - its[0]) > 0 else ""


sub("units", units.strategy(["Bregman(PG)", "Bregman(ADMM)", "Bregman(LADMM)", "PlugAndPlay"]), quick=300)(units.check)
