"""C20 backtracking: sufficient decrease, monotone objectives, convergence from any initial step."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal.optimization import palm as palm_m
from pyproximal.optimization import primal
from vlib import gen, ops, prob, recur, units
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: smooth f (quadratics real/complex full or deficient rank, sums of roots, low-rank factorised data fits with and without operator), "
        "any g, initial steps over 8 orders of magnitude, shrink factors 0.1 to 0.9, accelerations and relaxations; "
        "non-trivial: the initial step had to be shrunk and the iterates move")
ASSUMPTIONS = ["an acceptance decided by rounding (both sides of the inequality agree to 1e-10) ends the comparison of that history",
               "prox/grad of the operands are those of independently built equal operators or dense algebra"]


class Root(pp.ProxOperator):
    def __init__(self, c, b):
        super().__init__(None, True)
        self.c, self.b = c, b
        self.L = c

    def __call__(self, x):
        return float(np.sum(self.c * (np.sqrt(1 + (x - self.b) ** 2) - 1)))

    val = __call__

    def grad(self, x):
        return self.c * (x - self.b) / np.sqrt(1 + (x - self.b) ** 2)


class Osc(Root):
    """non-convex: sum c (cos(x-b) + (x-b)^2/4)"""

    def __call__(self, x):
        return float(np.sum(self.c * (np.cos(x - self.b) + (x - self.b) ** 2 / 4)))

    val = __call__

    def grad(self, x):
        return self.c * (-np.sin(x - self.b) + (x - self.b) / 2)


def draw_f(draw, n, cplx, full=False, kinds=("quad", "root", "osc")):
    k = "quad" if cplx else draw(st.sampled_from(("quad", "quad") + tuple(kinds)))
    if k != "quad":
        return {"k": k, "c": gen.pos(draw), "b": gen.rvec(draw, n, style=(8, 2), scale=False)}
    f = prob.draw_f(draw, n, cplx, full=full or draw(st.booleans()))
    f["k"] = k
    return f


def mkf(c):
    """(operator, value, gradient, L)"""
    if c["k"] == "quad":
        f = prob.F(c)
        return f.op(), f.val, f.grad, f.L
    T = Root if c["k"] == "root" else Osc
    a, b = T(c["c"], gen.arr(c["b"])), T(c["c"], gen.arr(c["b"]))
    return a, b.val, b.grad, 1.5 * b.L if T is Osc else b.L


def step(draw):
    return draw(st.sampled_from([None, 1.0, 0.01, 3.0, 50.0, 1e3, 1e6, "L", "2L"]))


def tau_of(t, L):
    return {"L": 0.9 / max(L, 1e-9), "2L": 2.2 / max(L, 1e-9)}[t] if isinstance(t, str) else t


@gen.mk
def pg(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 6)
    niter = gen.many(draw, 12)
    c = {"f": draw_f(draw, n, cplx), "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "niter": niter,
         "acc": draw(st.sampled_from([None, None, "vandenberghe", "fista"])), "eta": draw(st.sampled_from([1.0, 1.0, 0.4, 1.3])),
         "tau": step(draw), "beta": draw(st.sampled_from([0.5, 0.5, 0.1, 0.3, 0.9, 0.7]))}
    c["eps"] = [gen.pos(draw) for _ in range(niter)] if draw(st.integers(0, 2)) == 0 else gen.pos(draw)
    if c["acc"] and draw(st.integers(0, 2)) == 0:       # the wrapper kept for older code
        c.update(wrap=True, eta=1.0, tau=None)
        c["f"]["sigma" if c["f"]["k"] == "quad" else "c"] *= draw(st.sampled_from([1.0, 1e3, 1e5]))
    if draw(st.integers(0, 4)) == 0:       # the documented default factor and number of trials
        c.update(beta=0.5, default=True)
        if not c.get("wrap"):
            c["tau"] = draw(st.sampled_from([1e3, 1e6, 1e8]))
    return c


def compare(its, ref, what, x0, rtol=1e-8):
    s0 = 1 + mx(x0)
    for k, (a, b) in enumerate(zip(its, ref)):
        s = s0 + max(mx(v) for v in ref[:k + 1])
        if s > 1e6 * s0:
            return
        same(out(a, np.shape(b), what), b, "%s, iterate %d" % (what, k + 1), s, rtol)


@sub("proximal_gradient", pg, quick=700)
def _(c):
    op, val, grad, L = mkf(c["f"])
    p = c["g"]
    g, gr = ops.build(p), ops.build(p)
    x0 = gen.arr(c["x0"])
    eps = np.array(c["eps"]) if isinstance(c["eps"], list) else c["eps"]
    tau = tau_of(c["tau"], L)
    kw = {} if c.get("default") else {"beta": c["beta"], "niterback": 400}
    trials = 100 if c.get("default") else 400
    its = []
    if c.get("wrap"):
        x = primal.AcceleratedProximalGradient(op, g, x0=x0.copy(), epsg=eps, niter=c["niter"], **kw,
                                               acceleration=c["acc"], callback=lambda v: its.append(np.array(v, copy=True)))
    else:
        x = primal.ProximalGradient(op, g, x0=x0.copy(), epsg=eps, tau=tau, backtracking=True if tau is not None else bool(c["niter"] % 2),
                                    eta=c["eta"], niter=c["niter"], **kw, acceleration=c["acc"], tol=None,
                                    callback=lambda v: its.append(np.array(v, copy=True)))
    what = "ProximalGradient(backtracking, tau=%s, beta=%g, acceleration=%s, eta=%g) on %s" % (tau, c["beta"], c["acc"], c["eta"], p["op"])
    if len(its) != c["niter"] or not np.array_equal(x, its[-1]):
        raise Violation("%s: %d callbacks for %d iterations, or the result is not the last iterate" % (what, len(its), c["niter"]))
    ref, taus = recur.pg_backtracking(val, grad, gr.prox, x0, eps, 1.0 if tau is None else tau, c["beta"], trials, c["niter"], c["acc"], c["eta"])
    # the shrunk step is a floating-point product: a relative 1e-15 in tau
    compare(its, ref, what, x0, 1e-7)
    if c["acc"] is None and c["eta"] == 1.0 and not isinstance(eps, np.ndarray):
        F = [val(v) + eps * prob.gval(p, v) for v in its]
        if not ops.get(p).ind:
            F = [val(x0) + eps * prob.gval(p, x0)] + F
        for k in range(1, len(F)):
            acc = 1e-9 * (1 + abs(F[k - 1]) + abs(val(its[0])))
            if np.isfinite(F[k - 1]) and not F[k] <= F[k - 1] + acc:
                raise Violation("%s: the objective increases from %r to %r at iterate %d" % (what, F[k - 1], F[k], k))
    shrunk = len(taus) and taus[-1] < (1.0 if tau is None else tau)
    return "%s-%s-%s" % (c["f"]["k"], c["acc"], p["op"]) if shrunk and len(ref) >= 1 and nrm(its[-1] - x0) > 0 else ""


@gen.mk
def conv(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(1, 6))
    f = draw_f(draw, n, cplx, full=True, kinds=())
    return {"f": f, "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "eps": draw(st.sampled_from([1.0, 0.3, 2.0])),
            "tau": draw(st.sampled_from([None, 1e2, 1e4, 1e6, 10.0])), "beta": draw(st.sampled_from([0.5, 0.5, 0.2, 0.8])),
            "acc": draw(st.sampled_from([None, None, "fista", "vandenberghe"]))}


@sub("converges", conv, quick=150)
def _(c):
    f, p = prob.F(c["f"]), c["g"]
    x0 = gen.arr(c["x0"])
    if c["tau"] is not None or f.L < 1:      # steps only ever shrink: start from a step that is too large
        c["tau"] = (c["tau"] or 5.0) / f.L
    q = f.mu / f.L
    niter = int(min(3000, max(60, 30 * (2 / c["beta"]) / max(q, 1e-3) * (1 if c["acc"] is None else 4))))
    x = primal.ProximalGradient(f.op(), ops.build(p), x0=x0.copy(), epsg=c["eps"], tau=c["tau"], backtracking=True, beta=c["beta"], niter=niter,
                                acceleration=c["acc"], niterback=400)
    xs = prob.solve(f, p, c["eps"])
    what = "ProximalGradient(backtracking, tau=%s, beta=%g, acceleration=%s) on %s" % (c["tau"], c["beta"], c["acc"], p["op"])
    s = 1 + mx(xs) + mx(x0)
    o = ops.get(p)
    acc = float(np.max(np.asarray(o.acc(p, xs)))) if "xtol" in p or p["op"] == "AffineSet" else 0.0
    # acceptance is decided by rounding once the decrease is below eps f: the distance is then O(sqrt(eps f / mu))
    rnd = (50 if c["acc"] is None else 1000) * np.sqrt(1e-15 * (1 + f.val(x0) + f.val(xs)) / f.mu) * np.sqrt(f.L / f.mu)
    tol = 1e-5 * s + rnd + 50 * acc * x.size * f.L / f.mu
    if not nrm(x - xs) <= tol:
        raise Violation("%s: after %d iterations %s, the minimiser is %s" % (what, niter, x, xs))
    return "%s-%s-%s" % (c["acc"], c["tau"], p["op"]) if nrm(x0 - xs) > 1e-3 and (c["tau"] or 1.0) > 1.0001 / f.L else ""


# ------------------------------------------------------------------ PALM
NAMES = ["L1", "L1", "L2", "Euclidean", "Box", "EuclideanBall", "L1Ball", "SimplexSet", "Huber"]
NAMES_C = ["L1", "Euclidean", "EuclideanBall"]
NONCVX = ["L0"]


def draw_reg(draw, n, cplx):
    if draw(st.integers(0, 3)) == 0:
        return None
    return prob.draw_g(draw, n, cplx, names=NAMES_C if cplx else NAMES)


@gen.mk
def palm_case(draw):
    c = prob.draw_lr(draw)
    c.update(f=draw_reg(draw, c["n"] * c["k"], c["cplx"]), g=draw_reg(draw, c["k"] * c["m"], c["cplx"]), niter=draw(st.integers(1, 8)),
             beta=draw(st.sampled_from([0.5, 0.5, 0.1, 0.3, 0.9, 0.7])), inertial=draw(st.integers(0, 3)) == 0, a=[draw(st.integers(0, 10)) / 10, draw(st.integers(0, 10)) / 10],
             gf=None, gg=None)
    if c["op"] is None and draw(st.integers(0, 2)) == 0:
        c[draw(st.sampled_from(["gf", "gg"]))] = draw(st.sampled_from([1.0, 1.5, 3.0]))
    if draw(st.integers(0, 3)) == 0:        # the factors and the data in other units
        u = 10.0 ** draw(st.integers(-2, 4))
        for key, q in (("x0", u), ("y0", u), ("d", u * u)):
            c[key] = gen.scale(c[key], q)
    return c


def opt(p):
    return None if p is None else ops.build(p)


def px(p):
    if p is None:
        return None
    o = ops.build(p)
    return lambda v, t: o.prox(v, t)


@sub("palm", palm_case, quick=500)
def _(c):
    H, R, x0, y0 = prob.mklr(c)
    its = []
    cb = lambda x, y: its.append((np.array(x, copy=True), np.array(y, copy=True)))
    kw = dict(gammaf=c["gf"], gammag=c["gg"], beta=c["beta"], niter=c["niter"], niterback=400, callback=cb)
    a = c["a"] if c["inertial"] else (0.0, 0.0)
    ref, steps = recur.palm(R, px(c["f"]), px(c["g"]), x0, y0, c["gf"], c["gg"], c["beta"], 400, c["niter"], a)
    if len(ref) < c["niter"] and not all(g is None for g in (c["gf"], c["gg"])):
        return ""       # a step constant vanished (zero factor)
    if any(min(v) < 1e-11 for v in steps):
        return ""       # the search gives up at steps of 1e-12
    name = "iPALM" if c["inertial"] else "PALM"
    with np.errstate(all="ignore"):
        x, y = palm_m.iPALM(H, opt(c["f"]), opt(c["g"]), x0.copy(), y0.copy(), a=tuple(a), **kw) if c["inertial"] else \
            palm_m.PALM(H, opt(c["f"]), opt(c["g"]), x0.copy(), y0.copy(), **kw)
    what = "%s(backtracking, beta=%g, gammaf=%s, gammag=%s)" % (name, c["beta"], c["gf"], c["gg"])
    if len(its) != c["niter"] or not (np.array_equal(x, its[-1][0]) and np.array_equal(y, its[-1][1])):
        raise Violation("%s: %d callbacks for %d iterations, or the result is not the last iterate" % (what, len(its), c["niter"]))
    compare([np.concatenate(v) for v in its], [np.concatenate(v) for v in ref], what, np.concatenate([x0, y0]), 1e-7)
    if not c["inertial"]:
        J = [R.val(u, v) + (0 if c["f"] is None else prob.gval(c["f"], u)) + (0 if c["g"] is None else prob.gval(c["g"], v)) for u, v in its]
        for k in range(1, len(J)):
            if np.isfinite(J[k - 1]) and not J[k] <= J[k - 1] + 1e-9 * (1 + abs(J[k - 1]) + R.val(x0, y0)):
                raise Violation("%s: the objective increases from %r to %r at iterate %d" % (what, J[k - 1], J[k], k + 1))
    if not its or not steps:
        return ""
    shrunk = (c["gf"] is None and steps[-1][0] < 1) or (c["gg"] is None and steps[-1][1] < 1)
    return "%s-%s" % (name, "op" if c["op"] else "plain") if shrunk and nrm(np.concatenate(its[-1]) - np.concatenate([x0, y0])) > 0 else ""


@gen.mk
def bil(draw):
    c = prob.draw_lr(draw)
    n = c["k"] * (c["n"] + c["m"])
    c.update(g=prob.draw_g(draw, n, c["cplx"], names=NAMES_C if c["cplx"] else NAMES), niter=draw(st.integers(1, 8)), beta=draw(st.sampled_from([0.5, 0.3, 0.8])),
             tau=draw(st.sampled_from([None, 1.0, 100.0])), eps=draw(st.sampled_from([1.0, 0.3, 2.0])), stale=draw(st.integers(0, 3)) == 0)
    return c


@sub("joint_bilinear", bil, quick=250)
def _(c):
    """both factors of a bilinear data fit updated jointly by the proximal gradient solver"""
    H, R, x0, y0 = prob.mklr(c)
    N = x0.size
    w0 = np.concatenate([x0, y0])
    p = c["g"]
    gr = ops.build(p)
    its = []
    x = primal.ProximalGradient(H, ops.build(p), x0=w0.copy(), epsg=c["eps"], tau=c["tau"], backtracking=True, beta=c["beta"], niter=c["niter"], niterback=400,
                                callback=lambda v: its.append(v.copy()))
    ref, taus = recur.pg_backtracking(lambda w: R.val(w[:N], w[N:]), lambda w: np.concatenate([R.gx(w[:N], w[N:]), R.gy(w[:N], w[N:])]), gr.prox, w0,
                                      c["eps"], c["tau"] or 1.0, c["beta"], 400, c["niter"])
    what = "ProximalGradient(backtracking) with a low-rank factorised f and %s" % p["op"]
    if len(its) != c["niter"] or not np.array_equal(x, its[-1]):
        raise Violation("%s: %d callbacks for %d iterations, or the result is not the last iterate" % (what, len(its), c["niter"]))
    compare(its, ref, what, w0, 1e-7)
    return "%s%s" % (p["op"], "-op" if c["op"] else "") if len(taus) and taus[-1] < (c["tau"] or 1.0) and nrm(its[-1] - w0) > 0 else ""


@gen.mk
def trials_case(draw):
    n = draw(st.integers(1, 4))
    return {"f": draw_f(draw, n, False), "g": prob.draw_g(draw, n), "x0": gen.rvec(draw, n, scale=False), "tau": draw(st.sampled_from([1e2, 1e5, 1e8])),
            "niter": draw(st.integers(1, 4)), "nb": draw(st.integers(1, 6)), "beta": draw(st.sampled_from([0.5, 0.2])), "wrap": draw(st.integers(0, 4)) == 0}


class Count(pp.ProxOperator):
    def __init__(self, op):
        super().__init__(None, False)
        self.inner, self.steps = op, []

    def __call__(self, x):
        return self.inner(x)

    def prox(self, x, tau):
        self.steps.append(float(tau))
        return self.inner.prox(x, tau)


@sub("trials", trials_case, quick=200)
def _(c):
    """the step only ever shrinks by the factor, at most niterback times per iteration"""
    op, val, grad, L = mkf(c["f"])
    g = Count(ops.build(c["g"]))
    marks = []
    if c["wrap"]:
        c["tau"] = 1.0
        primal.AcceleratedProximalGradient(op, g, x0=gen.arr(c["x0"]), epsg=1.0, beta=c["beta"], niter=c["niter"], niterback=c["nb"],
                                           callback=lambda v: marks.append(len(g.steps)))
    else:
        primal.ProximalGradient(op, g, x0=gen.arr(c["x0"]), epsg=1.0, tau=c["tau"], backtracking=True, beta=c["beta"], niter=c["niter"], niterback=c["nb"],
                                callback=lambda v: marks.append(len(g.steps)))
    lim = c["tau"]
    prev, last = 0, lim
    for k, e in enumerate(marks):
        u = sorted(set(g.steps[prev:e]), reverse=True)
        prev = e
        if len(u) > c["nb"] + 1:
            raise Violation("%d different steps tried in one iteration with niterback=%d: %s" % (len(u), c["nb"], u))
        for v in u:
            r = np.log(v / lim) / np.log(c["beta"])
            if not (v <= last * (1 + 1e-9) and abs(r - round(r)) < 1e-6 and r < (k + 1) * c["nb"] + 0.5):
                raise Violation("step %r at iteration %d, initial step %r, factor %r, niterback %d: not an admissible shrink" % (v, k + 1, lim, c["beta"], c["nb"]))
        last = u[-1] if u else last
    return "trials" if g.steps and min(g.steps) < lim else ""


sub("units", units.strategy(["ProximalGradient(backtracking)"]), quick=200)(units.check)
