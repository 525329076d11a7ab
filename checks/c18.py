"""C18 proximal-point and proximal-gradient solvers reach a minimiser."""
import warnings

import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal.optimization import primal
from vlib import gen, ops, prob
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out

RULE = ("cases: sigma/2 |Ax-b|^2 + eps g with A of drawn spectrum (real/complex, explicit or matrix-free), g any convex function or "
        "set of the catalogue, admissible steps, accelerations, relaxations, memories, start; non-trivial: g is active at the solution "
        "(it differs from the minimiser of f alone) and the start is not the solution")
ASSUMPTIONS = ["optimality certificate: the prox-gradient residual computed with independent references for grad and prox",
               "numbers of iterations follow from the contraction factor of the recursion",
               "for rank-deficient problems the sub-linear objective bound of the theory is checked against an independent solver"]


def scale(f, x, x0, p):
    return 1 + mx(x) + mx(x0) + mx(f.b) / max(1e-3, np.sqrt(f.L / f.sigma))


def certify(f, p, x, x0, eps, what, rtol=1e-6):
    r, y = prob.residual(f, p, x, eps)
    o = ops.get(p)
    acc = float(np.max(np.asarray(o.acc(p, x)))) if "xtol" in p or p["op"] == "AffineSet" else 0.0
    if r > rtol * scale(f, x, x0, p) + 20 * acc * x.size:
        raise Violation("%s: final point %s is not optimal: it moves to %s under a prox-gradient step (residual %g)" % (what, x, y, r))


def active(f, p, x, x0):
    g = np.linalg.lstsq(f.A, f.b, rcond=None)[0]
    return nrm(g - x) > 1e-6 * (1 + nrm(x)) and nrm(x0 - x) > 1e-6 and f.L > 0


def niter_for(q, lo=20, hi=4000, target=1e-10):
    if q >= 1:
        return hi
    return int(min(hi, max(lo, np.ceil(np.log(target) / np.log(max(q, 1e-6))))))


@gen.mk
def pg(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(1, 6))
    f = prob.draw_f(draw, n, cplx)
    return {"f": f, "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "x1": gen.vec(draw, n, cplx, scale=False),
            "eps": draw(st.sampled_from([1.0, 1.0, 0.3, 2.0])), "frac": draw(st.sampled_from([0.5, 0.9, 1.0])),
            "acc": draw(st.sampled_from([None, None, "vandenberghe", "fista"])), "eta": draw(st.sampled_from([1.0, 1.0, 0.5, 1.2])),
            "sched": draw(st.booleans()), "legacy": draw(st.booleans())}


def run_pg(c, f, op, g, x0, niter):
    if c["legacy"] and c["acc"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return primal.AcceleratedProximalGradient(op, g, x0=x0.copy(), tau=c["frac"] / f.L, epsg=c["eps"], niter=niter, acceleration=c["acc"])
    eps = c["eps"] * np.ones(niter) if c["sched"] else c["eps"]
    return primal.ProximalGradient(op, g, x0=x0.copy(), epsg=eps, tau=c["frac"] / f.L, niter=niter, acceleration=c["acc"],
                                   eta=1.0 if c["acc"] else c["eta"], tol=None)


@sub("proximal_gradient", pg, quick=250, budget=(60, 1500))
def _(c):
    f = prob.F(c["f"])
    p = c["g"]
    q = 1 - c["frac"] * f.mu / f.L
    eta = 1.0 if c["acc"] else c["eta"]
    niter = niter_for(1 - min(eta, 2 - eta) * (1 - q)) if c["acc"] is None else 600
    x0, x1 = gen.arr(c["x0"]), gen.arr(c["x1"])
    xs = []
    for s in (x0, x1):
        x = out(run_pg(c, f, f.op(), ops.build(p), s, niter), s.shape, "ProximalGradient")
        if c["acc"] and prob.residual(f, p, x, c["eps"])[0] > 1e-7 * scale(f, x, s, p):
            x = run_pg(c, f, f.op(), ops.build(p), s, 8 * niter)
        certify(f, p, x, s, c["eps"], "ProximalGradient(acceleration=%s, eta=%s, niter=%d) on L2+%s" % (c["acc"], eta, niter, p["op"]))
        xs.append(x)
    if nrm(xs[0] - xs[1]) > 1e-5 * (f.L / f.mu) * (scale(f, x, x0, p) + mx(x1)):
        raise Violation("ProximalGradient: two starts reach %s and %s for a strictly convex problem" % tuple(xs))
    return "%s-%s" % (c["acc"], p["op"]) if active(f, p, xs[0], x0) else ""


@gen.mk
def rate(draw):
    n = draw(st.integers(2, 6))
    f = prob.draw_f(draw, n, False, full=False)
    return {"f": f, "g": prob.draw_g(draw, n, False, ["L1", "L2", "Euclidean", "Huber", "Box", "EuclideanBall", "L1Ball", "HalfSpace"]),
            "x0": gen.vec(draw, n, False, scale=False), "frac": draw(st.sampled_from([0.5, 1.0])),
            "acc": draw(st.sampled_from([None, "fista", "vandenberghe"])), "niter": draw(st.integers(5, 60))}


@sub("objective_rate", rate, quick=250)
def _(c):
    """F(x_k) - F* <= |x0 - x*|^2/(2 tau k), four times over k+1 squared when accelerated"""
    f = prob.F(c["f"])
    if f.L <= 0:
        return ""
    p, o, tau = c["g"], ops.get(c["g"]), c["frac"] / f.L
    x0 = gen.arr(c["x0"])
    x0 = prob.gprox(p, x0, 1.0) if o.ind else x0
    xs = prob.solve(f, p)
    Fs = f.val(xs) + prob.gval(p, xs)
    if not np.isfinite(Fs):
        raise Skip()
    its = []
    primal.ProximalGradient(f.op(), o.build(p), x0=x0.copy(), tau=tau, niter=c["niter"], acceleration=c["acc"], tol=None,
                            callback=lambda x: its.append(x.copy()))
    D = nrm(x0 - xs) ** 2
    for k, x in enumerate(its, 1):
        Fk = f.val(x) + prob.gval(p, x)
        bound = D / (2 * tau * k) if c["acc"] is None else 4 * D / (2 * tau * (k + 1) ** 2) * (1.0 if c["acc"] == "fista" else 1.3)
        if not Fk - Fs <= bound + 1e-6 * (1 + abs(Fs) + f.sigma * nrm(f.b) ** 2):
            raise Violation("ProximalGradient(acceleration=%s) on L2+%s: after %d iterations the objective is %g above the minimum %g; "
                            "the guarantee is %g" % (c["acc"], p["op"], k, Fk - Fs, Fs, bound))
    return "%s-%s" % (c["acc"], p["op"]) if active(f, p, xs, x0) else ""


@gen.mk
def anderson(draw):
    n = draw(st.integers(1, 6))
    return {"f": prob.draw_f(draw, n), "g": prob.draw_g(draw, n), "x0": gen.vec(draw, n, scale=False), "eps": draw(st.sampled_from([1.0, 0.5])),
            "frac": draw(st.sampled_from([0.5, 1.0])), "nh": draw(st.integers(2, 6)), "guard": draw(st.booleans())}


@sub("anderson", anderson, quick=120, budget=(60, 1500))
def _(c):
    f, p = prob.F(c["f"]), c["g"]
    x0 = gen.arr(c["x0"])
    for N in (250, 4000):   # few iterations are enough in general, no rate is guaranteed
        x = primal.AndersonProximalGradient(f.op(), ops.build(p), x0=x0.copy(), epsg=c["eps"], tau=c["frac"] / f.L, niter=N,
                                            nhistory=c["nh"], safeguard=c["guard"], tol=None)
        out(x, x0.shape, "AndersonProximalGradient")
        if prob.residual(f, p, x, c["eps"])[0] < 1e-6 * scale(f, x, x0, p):
            break
    certify(f, p, x, x0, c["eps"], "AndersonProximalGradient(nhistory=%d, safeguard=%s) on L2+%s" % (c["nh"], c["guard"], p["op"]), 1e-5)
    return "%s-%s" % (c["guard"], p["op"]) if active(f, p, x, x0) else ""


@gen.mk
def gpg(draw):
    n = draw(st.integers(1, 5))
    k = draw(st.integers(1, 3))
    w = [draw(st.integers(1, 4)) for _ in range(k)]
    return {"fs": [prob.draw_f(draw, n) for _ in range(draw(st.integers(1, 3)))],
            "gs": [prob.draw_g(draw, n, names=["L1", "L2", "Euclidean", "Huber", "Box", "EuclideanBall"]) for _ in range(k)],
            "w": [a / sum(w) for a in w] if draw(st.booleans()) else None, "x0": gen.vec(draw, n, scale=False),
            "frac": draw(st.sampled_from([0.5, 1.0])), "eta": draw(st.sampled_from([1.0, 0.7])),
            "eps": [draw(st.sampled_from([1.0, 0.5, 2.0])) for _ in range(k)] if draw(st.booleans()) else draw(st.sampled_from([1.0, 0.5]))}


class Many:
    """sum of quadratics"""

    def __init__(self, fs):
        self.fs = fs
        self.A = np.vstack([np.sqrt(g.sigma) * g.A for g in fs])
        self.b = np.concatenate([np.sqrt(g.sigma) * g.b for g in fs])
        self.sigma = 1.0
        s = np.linalg.svd(self.A, compute_uv=False)
        self.L, self.mu = s[0] ** 2, s[-1] ** 2 if self.A.shape[0] >= self.A.shape[1] else 0.0

    def val(self, x):
        return 0.5 * nrm(self.A @ x - self.b) ** 2

    def grad(self, x):
        return self.A.T @ (self.A @ x - self.b)


def feasible(ps, n):
    """a point strictly inside of all sets, if the drawn sets have one"""
    sets = [p for p in ps if ops.get(p).ind]
    if len(sets) <= 1:
        return True
    x = np.zeros(n)
    for _ in range(500):
        for p in sets:
            x = ops.get(p).prox(p, x, 1.0)
    return max(ops.get(p).viol(p, x) for p in sets) < 1e-8


@sub("generalized", gpg, quick=60, budget=(60, 1500))
def _(c):
    f = Many([prob.F(q) for q in c["fs"]])
    ps = c["gs"]
    n = f.A.shape[1]
    if not feasible(ps, n):
        raise Skip()
    x0 = gen.arr(c["x0"])
    eps = np.array(c["eps"]) if isinstance(c["eps"], list) else c["eps"]
    ev = np.broadcast_to(eps, len(ps))
    its = []
    N = 1500
    x = primal.GeneralizedProximalGradient([q.op() for q in f.fs], [ops.build(p) for p in ps], x0=x0.copy(), tau=c["frac"] / f.L,
                                           epsg=eps, weights=None if c["w"] is None else np.array(c["w"]), eta=c["eta"], niter=N,
                                           callback=lambda v: its.append(v.copy()) if len(its) >= N - 300 or True else None)
    out(x, x0.shape, "GeneralizedProximalGradient")
    if nrm(its[-1] - its[-200]) > 1e-8 * (1 + mx(x)):
        return ""      # still moving: not decided
    # optimal: no feasible direction found by an independent reference improves the objective
    xr = reference_many(f, ps, ev, x0)
    if xr is None:
        return ""
    if nrm(x - xr) > 1e-4 * (1 + nrm(xr)) * (f.L / f.mu):
        # x may rest for long while the auxiliary vectors still travel: decided only if these rest too
        if not rests(f, ps, ev, c, x0, N):
            return ""
        raise Violation("GeneralizedProximalGradient(%s) settles at %s; the minimiser is %s (objectives %g, %g)" % (
            "+".join(p["op"] for p in ps), x, xr, f.val(x) + sum(e * prob.gval(p, x) for e, p in zip(ev, ps)),
            f.val(xr) + sum(e * prob.gval(p, xr) for e, p in zip(ev, ps))))
    return "f%d-g%d" % (len(c["fs"]), len(ps)) if active(f, ps[0], x, x0) else ""


def rests(f, ps, ev, c, x0, N):
    """do all variables of the documented recursion (run with the references) come to rest?"""
    w = np.full(len(ps), 1 / len(ps)) if c["w"] is None else np.array(c["w"])
    tau = c["frac"] / f.L
    x, zs = x0.copy(), [x0.copy() for _ in ps]
    for k in range(N):
        d = 0.0
        grad = f.grad(x)
        for i, p in enumerate(ps):
            s = c["eta"] * (prob.gprox(p, 2 * x - zs[i] - tau * grad, tau * ev[i] / w[i]) - x)
            zs[i] = zs[i] + s
            d = max(d, mx(s))
        x = sum(a * z for a, z in zip(w, zs))
    return d < 1e-8 * (1 + mx(x))


def reference_many(f, ps, ev, x0, N=6000):
    """consensus splitting with independent proxes (scaled ADMM in product space), until stationary"""
    n = x0.size
    m = len(ps) + 1
    tau = 1.0 / np.sqrt(f.L * max(f.mu, 1e-3 * f.L))
    H = np.linalg.inv(np.eye(n) + tau * f.A.T @ f.A)
    Ab = f.A.T @ f.b
    z, u = np.zeros(n), np.zeros((m, n))
    for k in range(N):
        X = [H @ (z - u[0] + tau * Ab)] + [prob.gprox(p, z - u[i + 1], tau * e) for i, (p, e) in enumerate(zip(ps, ev))]
        X = np.array(X)
        zn = np.mean(X + u, axis=0)
        u = u + X - zn
        d = max(nrm(zn - z), nrm(X - zn))
        z = zn
        if d < 1e-10 * (1 + nrm(z)):
            return z
    return None


@gen.mk
def twist(draw):
    n = draw(st.integers(1, 6))
    cplx = draw(st.integers(0, 4)) == 0
    a = prob.draw_lin(draw, n, None, cplx, True, 0.5, 1.0)
    a["scale"] = 1.0
    return {"a": a, "b": gen.vec(draw, a["m"], cplx, style=(8, 2), scale=False), "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False),
            "how": draw(st.sampled_from(["eigs", "auto", "auto", "wide"])), "cost": draw(st.booleans())}


@sub("twist", twist, quick=150)
def _(c):
    f = prob.F({"a": c["a"], "b": c["b"], "sigma": 1.0})
    p = c["g"]
    x0 = gen.arr(c["x0"])
    n = x0.size
    how = c["how"]
    if how == "auto" and n < 3:
        how = "eigs"
    kw = dict(eigs=(f.L, f.mu)) if how == "eigs" else dict(eigs=(1.0, 0.5 * f.mu)) if how == "wide" else {}
    r = primal.TwIST(ops.build(p), prob.linop(c["a"], f.A), f.b.copy(), x0.copy(), niter=400, returncost=c["cost"], **kw)
    x = r[0] if c["cost"] else r
    out(x, x0.shape, "TwIST")
    certify(f, p, x, x0, 1.0, "TwIST(%s) on L2+%s" % (how, p["op"]))
    return "%s-%s" % (how, p["op"]) if active(f, p, x, x0) else ""


PPA = ["L1", "L2", "L2Op", "Euclidean", "Huber", "HuberCircular", "Box", "EuclideanBall", "HalfSpace", "L21", "L1Ball"]


@gen.mk
def ppa(draw):
    n = draw(st.integers(1, 6))
    p = prob.draw_g(draw, n, names=PPA)
    if p["op"] == "L2Op":
        p.pop("q", None)
        p.pop("alpha", None)
    return {"g": p, "x0": gen.vec(draw, n, p["cplx"], style=(8, 2), scale=False), "tau": draw(st.sampled_from([0.5, 1.0, 3.0, 10.0]))}


@sub("proximal_point", ppa, quick=200)
def _(c):
    p, tau = c["g"], c["tau"]
    o = ops.get(p)
    x0 = gen.arr(c["x0"])
    sig = p.get("sigma", 1.0)
    if o.ind:
        N = 2
    elif p["op"] in ("L2",):
        N = niter_for(1 / (1 + tau * sig), 5)
    elif p["op"] == "L2Op":
        s = np.linalg.svd(o.A(p), compute_uv=False)
        s = s[s > 1e-9 * max(s[0], 1e-300)]
        N = niter_for(1 / (1 + tau * sig * s[-1] ** 2) if s.size else 0.5, 5)
    elif p["op"] in ("Huber", "HuberCircular"):
        a = p["alpha"]
        N = int(mx(x0) * a / min(tau, 1e9) + nrm(x0) / tau + 30) + niter_for(1 / (1 + tau / a), 5)
    else:
        N = int(np.ceil(2 * (nrm(x0) + nrm(gen.arr(p["g"])) if "g" in p else nrm(x0)) / (tau * sig))) + 5
    if N > 4000:
        return ""
    x = primal.ProximalPoint(o.build(p), x0.copy(), tau, niter=N, tol=None)
    out(x, x0.shape, "ProximalPoint")
    y = prob.gprox(p, x, 1.0)
    if nrm(x - y) > 1e-6 * (1 + mx(x0)) + 10 * float(np.max(o.acc(p, x))):
        raise Violation("ProximalPoint(tau=%g, niter=%d) on %s ends at %s, which is not a minimiser (prox moves it to %s)" % (tau, N, p["op"], x, y))
    # of all minimisers reached from x0 none is farther than needed: distances to minimisers never increase
    return p["op"] if nrm(x - x0) > 1e-6 else ""
