"""C19 recursions of the proximal-gradient type solvers."""
import warnings

import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal.optimization import primal
from vlib import gen, longrun, ops, prob, recur, units
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: smooth f (quadratic real/complex, or a sum of square roots), any convex g, arbitrary steps (scalar, per right-hand side, per "
        "iteration), weights, relaxation, momentum, memory, safeguard, start, 1 to 12 iterations, and runs of up to 400 iterations on slowly converging problems; non-trivial: at least two iterations "
        "and the iterates change")
ASSUMPTIONS = ["recursions as documented, with the history and safeguard conventions of the cited paper where the documentation defers to it",
               "prox/grad of the operands are those of independently built equal operators (decided in C02, C11)",
               "iterates are compared until they exceed 1e6 times the starting scale (rounding is amplified by diverging choices)"]


class Root(pp.ProxOperator):
    """sum c (sqrt(1 + (x-b)^2) - 1)"""

    def __init__(self, c, b):
        super().__init__(None, True)
        self.c, self.b = c, b

    def __call__(self, x):
        return float(np.sum(self.c * (np.sqrt(1 + (x - self.b) ** 2) - 1)))

    def grad(self, x):
        return self.c * (x - self.b) / np.sqrt(1 + (x - self.b) ** 2)


def draw_f(draw, n, cplx):
    if not cplx and draw(st.integers(0, 2)) == 0:
        return {"root": True, "c": gen.pos(draw), "b": gen.rvec(draw, n, style=(8, 2), scale=False)}
    return prob.draw_f(draw, n, cplx, full=draw(st.booleans()))


def mkf(c):
    if "root" in c:
        return Root(c["c"], gen.arr(c["b"])), c["c"]
    f = prob.F(c)
    return f.op(), f.L


def compare(its, ref, what, x0, rtol=1e-8, final=None):
    s0 = 1 + mx(x0)
    if len(its) != len(ref):
        raise Violation("%s: %d callbacks for %d iterations" % (what, len(its), len(ref)))
    for k, (a, b) in enumerate(zip(its, ref)):
        s = s0 + max(mx(v) for v in ref[:k + 1])
        if s > 1e6 * s0:
            return k
        same(out(a, np.shape(b), what), b, "%s, iterate %d" % (what, k + 1), s, rtol)
    if final is not None and len(its):
        if not np.array_equal(final, its[-1]):
            raise Violation("%s returns %s, the last iterate is %s" % (what, final, its[-1]))
    return len(its)


def moving(its):
    return len(its) >= 2 and nrm(its[-1] - its[0]) > 0


@gen.mk
def pg(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 6)
    niter = gen.many(draw, 12)
    c = {"f": draw_f(draw, n, cplx), "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "niter": niter,
         "acc": draw(st.sampled_from([None, "None", "vandenberghe", "fista"])), "eta": draw(st.sampled_from([1.0, 0.3, 0.9, 1.5])),
         "frac": draw(st.sampled_from([0.3, 1.0, 1.0, 1.7])), "wrapper": draw(st.integers(0, 3)) == 0}
    c["eps"] = [gen.pos(draw) for _ in range(niter)] if draw(st.booleans()) else gen.pos(draw)
    return c


@sub("proximal_gradient", pg, quick=600)
def _(c):
    (f, L), (fr, _) = mkf(c["f"]), mkf(c["f"])
    p = c["g"]
    g, gr = ops.build(p), ops.build(p)
    x0 = gen.arr(c["x0"])
    tau = c["frac"] / L if L > 0 else 1.0
    eps = np.array(c["eps"]) if isinstance(c["eps"], list) else c["eps"]
    acc = None if c["acc"] == "None" else c["acc"]
    its = []
    cb = lambda x: its.append(np.array(x, copy=True))
    eta = c["eta"]
    if c["wrapper"] and not isinstance(eps, np.ndarray):
        eta = 1.0
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c["acc"] == "fista":
                x = primal.AcceleratedProximalGradient(f, g, x0.copy(), tau=tau, epsg=eps, niter=c["niter"], acceleration="fista", callback=cb)
            else:
                acc = "vandenberghe"
                x = primal.AcceleratedProximalGradient(f, g, x0.copy(), tau=tau, epsg=eps, niter=c["niter"], callback=cb)
    else:
        x = primal.ProximalGradient(f, g, x0=x0.copy(), epsg=eps, tau=tau, niter=c["niter"], acceleration=c["acc"], eta=eta, tol=None, callback=cb)
    ref = recur.proximal_gradient(fr.grad, gr.prox, x0, eps, tau, c["niter"], acc, eta)
    compare(its, ref, "ProximalGradient(acceleration=%s, eta=%g) on %s" % (acc, eta, p["op"]), x0, final=x)
    return "%s-eta%g-%s" % (acc, eta, p["op"]) if moving(its) else ""


@gen.mk
def multi(draw):
    n, k = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    niter = gen.many(draw, 8)
    return {"n": n, "k": k, "A": gen.mat(draw, n, n), "B": gen.mat(draw, n, k), "X0": gen.mat(draw, n, k), "tau": [gen.pos(draw) / 30 for _ in range(k)],
            "eps": [gen.pos(draw) for _ in range(niter)] if draw(st.booleans()) else gen.pos(draw), "sigma": gen.pos(draw), "niter": niter,
            "g": draw(st.sampled_from(["L1", "Box", "L2", "Euclid"])), "acc": draw(st.sampled_from([None, "vandenberghe", "fista"])), "eta": draw(st.sampled_from([1.0, 0.6]))}


class Mat(pp.ProxOperator):
    """1/2 |A X - B|^2 for several right-hand sides (columns)"""

    def __init__(self, A, B):
        super().__init__(None, True)
        self.A, self.B = A, B

    def __call__(self, X):
        return 0.5 * float(np.sum((self.A @ X - self.B) ** 2))

    def grad(self, X):
        return self.A.T @ (self.A @ X - self.B)


@sub("multiple_rhs", multi, quick=250)
def _(c):
    """one step per right-hand side: every column follows its own recursion"""
    n, k = c["n"], c["k"]
    A, B, X0 = gen.arr(c["A"], (n, n)), gen.arr(c["B"], (n, k)), gen.arr(c["X0"], (n, k))
    tau = np.array(c["tau"])

    def g():
        return {"L1": lambda: pp.L1(sigma=c["sigma"]), "Box": lambda: pp.Box(-c["sigma"], c["sigma"]), "L2": lambda: pp.L2(sigma=c["sigma"]),
                "Euclid": lambda: pp.Huber(alpha=c["sigma"])}[c["g"]]()
    eps = np.array(c["eps"]) if isinstance(c["eps"], list) else c["eps"]
    its = []
    gx = g()
    if c["g"] == "Euclid":      # Huber is not separable by columns: use the soft threshold of the rows instead
        gx = pp.L1(sigma=2 * c["sigma"])
    X = primal.ProximalGradient(Mat(A, B), gx, x0=X0.copy(), epsg=eps, tau=tau, niter=c["niter"], acceleration=c["acc"], eta=c["eta"],
                                tol=None, callback=lambda x: its.append(x.copy()))
    cols = []
    for j in range(k):
        gj = pp.L1(sigma=2 * c["sigma"]) if c["g"] == "Euclid" else g()
        cols.append(recur.proximal_gradient(lambda v: A.T @ (A @ v - B[:, j]), gj.prox, X0[:, j], eps, tau[j], c["niter"], c["acc"], c["eta"]))
    ref = [np.stack([cols[j][i] for j in range(k)], axis=1) for i in range(c["niter"])]
    compare(its, ref, "ProximalGradient with tau=%s on %d columns" % (tau, k), X0, final=X)
    return "k%d-%s" % (k, c["g"]) if k >= 2 and moving(its) and len(set(c["tau"])) > 1 else ""


@gen.mk
def bil(draw):
    c = prob.draw_lr(draw)
    n, niter = c["k"] * (c["n"] + c["m"]), draw(st.integers(1, 8))
    c.update(g=prob.draw_g(draw, n, c["cplx"]), niter=niter, beta=draw(st.sampled_from([0.5, 0.3, 0.8])), tau=draw(st.sampled_from([0.003, 0.02, 0.1])),
             eps=[gen.pos(draw) for _ in range(niter)] if draw(st.booleans()) else gen.pos(draw), eta=draw(st.sampled_from([1.0, 1.0, 0.4, 1.6])),
             back=draw(st.booleans()), stale=draw(st.integers(0, 3)) == 0)
    return c


@sub("bilinear", bil, quick=250)
def _(c):
    """a bilinear data fit as the smooth term: both factors move jointly and the operator follows them"""
    H, R, x0, y0 = prob.mklr(c)
    N = x0.size
    w0 = np.concatenate([x0, y0])
    if c.get("stale"):
        H.updatexy(w0.copy())
    p = c["g"]
    gr = ops.build(p)
    eps = np.array(c["eps"]) if isinstance(c["eps"], list) else c["eps"]
    its, held = [], []

    def cb(v):
        its.append(v.copy())
        held.append(np.concatenate([np.ravel(H.x), np.ravel(H.y)]))
    grad = lambda w: np.concatenate([R.gx(w[:N], w[N:]), R.gy(w[:N], w[N:])])
    niter = c["niter"]
    with np.errstate(all="ignore"):
        try:
            if c["back"]:
                ref, _ = recur.pg_backtracking(lambda w: R.val(w[:N], w[N:]), grad, gr.prox, w0, eps, c["tau"], c["beta"], 400, c["niter"], None, c["eta"])
            else:
                ref = recur.proximal_gradient(grad, gr.prox, w0, eps, c["tau"], c["niter"], None, c["eta"])
        except (np.linalg.LinAlgError, ValueError):       # overflow of a diverging step
            return ""
    big = [k for k, v in enumerate(ref) if not mx(v) <= 1e5 * (1 + mx(w0))]
    if big:                                  # diverging step: compare what comes before
        niter, ref = big[0], ref[:big[0]]
        if niter == 0:
            return ""
    x = primal.ProximalGradient(H, ops.build(p), x0=w0.copy(), epsg=eps if np.ndim(eps) == 0 else eps[:niter], tau=c["tau"], backtracking=c["back"], beta=c["beta"], niter=niter, niterback=400,
                                eta=c["eta"], callback=cb)
    what = "ProximalGradient(backtracking=%s, eta=%g) with a low-rank factorised f and %s" % (c["back"], c["eta"], p["op"])
    if len(its) != niter or not np.array_equal(x, its[-1], equal_nan=True):
        raise Violation("%s: %d callbacks for %d iterations, or the result is not the last iterate" % (what, len(its), niter))
    for k, (a, b) in enumerate(zip(its, held)):
        if not np.array_equal(a, b, equal_nan=True):
            raise Violation("%s: after iteration %d the operator holds %s, the iterate is %s" % (what, k + 1, b, a))
    compare(its[:len(ref)], ref, what, w0, 1e-7)
    return "%s%s%s" % (p["op"], "-op" if c["op"] else "", "-back" if c["back"] else "") if len(ref) > 1 and moving(its) else ""


@gen.mk
def anderson(draw):
    n = gen.dim(draw, 6)
    niter = draw(st.integers(1, 12))
    c = {"f": draw_f(draw, n, False), "g": prob.draw_g(draw, n), "x0": gen.rvec(draw, n, scale=False), "niter": niter, "nh": draw(st.integers(1, 7)),
         "epsr": draw(st.sampled_from([1e-2, 1e-4, 1e-3, 1.0])), "guard": draw(st.booleans()), "frac": draw(st.sampled_from([0.3, 1.0, 1.0]))}
    c["eps"] = [gen.pos(draw) for _ in range(niter)] if draw(st.booleans()) else gen.pos(draw)
    return c


@sub("anderson", anderson, quick=400)
def _(c):
    (f, L), (fr, _) = mkf(c["f"]), mkf(c["f"])
    p = c["g"]
    x0 = gen.arr(c["x0"])
    tau = c["frac"] / L if L > 0 else 1.0
    eps = np.array(c["eps"]) if isinstance(c["eps"], list) else c["eps"]
    its = []
    x = primal.AndersonProximalGradient(f, ops.build(p), x0=x0.copy(), epsg=eps, tau=tau, niter=c["niter"], nhistory=c["nh"], epsr=c["epsr"],
                                        safeguard=c["guard"], tol=None, callback=lambda v: its.append(v.copy()))
    margins = []

    def fval(v):
        margins.append(fr(v))
        return margins[-1]
    ref = recur.anderson(fr.grad, ops.build(p).prox, x0, eps, tau, c["niter"], c["nh"], c["epsr"], c["guard"], fval)
    if c["guard"]:
        # the test of the safeguard has to be clear of rounding
        xs = [x0] + ref
        for k in range(len(margins) // 2):
            a, b = margins[2 * k], margins[2 * k + 1]
            if abs(a - b) < 1e-6 * (1 + abs(a) + abs(b)):
                ref, its = ref[:k], its[:k]
                break
        return "guard-nh%d" % c["nh"] if compare(its, ref, "AndersonProximalGradient(safeguard, nhistory=%d) on %s" % (c["nh"], p["op"]), x0, 1e-5) >= 2 and moving(its) else ""
    # vanishing residuals make the coefficients arbitrary: compare while the iterates still move
    d = [nrm(b - a) for a, b in zip([x0] + ref[:-1], ref)]
    stop = next((i for i, v in enumerate(d) if v < 1e-5 * (1 + mx(x0))), len(ref))
    k = compare(its[:stop], ref[:stop], "AndersonProximalGradient(nhistory=%d, epsr=%g) on %s" % (c["nh"], c["epsr"], p["op"]), x0, 1e-5)
    if not np.array_equal(x, its[-1]):
        raise Violation("AndersonProximalGradient returns %s, the last iterate is %s" % (x, its[-1]))
    return "nh%d-%s" % (c["nh"], p["op"]) if k >= 2 and moving(its) else ""


@gen.mk
def gpg(draw):
    cplx = False
    n, k = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    w = [draw(st.integers(1, 4)) for _ in range(k)]
    return {"fs": [draw_f(draw, n, cplx) for _ in range(draw(st.integers(1, 3)))], "gs": [prob.draw_g(draw, n) for _ in range(k)],
            "w": [a / sum(w) for a in w] if draw(st.booleans()) else None, "wl": draw(st.booleans()), "x0": gen.rvec(draw, n, scale=False), "eta": draw(st.sampled_from([1.0, 0.7, 0.2])),
            "acc": draw(st.sampled_from([None, None, "vandenberghe", "fista"])), "tau": gen.pos(draw) / 10, "niter": gen.many(draw, 8),
            "eps": [gen.pos(draw) for _ in range(k)] if draw(st.booleans()) else gen.pos(draw)}


@sub("generalized", gpg, quick=400)
def _(c):
    fs, fr = [mkf(q)[0] for q in c["fs"]], [mkf(q)[0] for q in c["fs"]]
    x0 = gen.arr(c["x0"])
    w = None if c["w"] is None else np.array(c["w"])
    eps = np.array(c["eps"]) if isinstance(c["eps"], list) else c["eps"]
    its = []
    eta = 1.0 if c["acc"] else c["eta"]
    x = primal.GeneralizedProximalGradient(fs, [ops.build(p) for p in c["gs"]], x0=x0.copy(), tau=c["tau"], epsg=eps, weights=list(w) if c["wl"] and w is not None else w,
                                           eta=eta, niter=c["niter"], acceleration=c["acc"], callback=lambda v: its.append(v.copy()))
    ref = recur.generalized([q.grad for q in fr], [ops.build(p).prox for p in c["gs"]], x0, c["tau"], eps, w, c["niter"], c["acc"], eta)
    compare(its, ref, "GeneralizedProximalGradient(weights=%s, eta=%g, acceleration=%s) on %s" % (w, eta, c["acc"], [p["op"] for p in c["gs"]]), x0, final=x)
    return "f%d-g%d" % (len(fs), len(c["gs"])) if moving(its) else ""


@gen.mk
def hqs(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 6)
    niter = gen.many(draw, 8)
    c = {"f": prob.draw_f(draw, n, cplx, draw(st.booleans())), "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "z0": gen.vec(draw, n, cplx, scale=False),
         "init": draw(st.sampled_from(["x", "z", "both"])), "niter": niter, "gfirst": draw(st.sampled_from([True, False, None])), "cbz": draw(st.booleans())}
    c["tau"] = [gen.pos(draw) for _ in range(niter)] if draw(st.booleans()) else gen.pos(draw)
    c["f"]["a"]["form"] = "explicit"
    return c


@sub("hqs", hqs, quick=400)
def _(c):
    f, p = prob.F(c["f"]), c["g"]
    x0, z0 = gen.arr(c["x0"]), gen.arr(c["z0"])
    kw = {} if c["gfirst"] is None else {"gfirst": c["gfirst"]}
    xi, zi = (x0 if c["init"] != "z" else None), (z0 if c["init"] != "x" else None)
    tau = np.array(c["tau"]) if isinstance(c["tau"], list) else c["tau"]
    its, zs = [], []

    def cb(x, z=None):
        its.append(x.copy())
        zs.append(None if z is None else z.copy())
    x, z = primal.HQS(f.op(), ops.build(p), None if xi is None else xi.copy(), tau, niter=c["niter"], z0=None if zi is None else zi.copy(),
                      callback=cb, callbackz=c["cbz"], **kw)
    ref = recur.hqs(f.op().prox, ops.build(p).prox, z0 if xi is None else xi, x0 if zi is None else zi, tau, c["niter"], kw.get("gfirst", True))
    what = "HQS(gfirst=%s, init=%s) on %s" % (kw.get("gfirst"), c["init"], p["op"])
    compare(its, [a for a, _ in ref], what, x0, final=x)
    same(z, ref[-1][1], what + ", z", mx(x0) + mx(z0), 1e-8)
    if c["cbz"]:
        for k in range(c["niter"]):
            same(zs[k], ref[k][1], what + ", z at iteration %d" % (k + 1), mx(x0) + mx(z0) + mx(zs[k]), 1e-8)
    elif any(v is not None for v in zs):
        raise Violation("HQS passes z to a callback that did not ask for it")
    return "%s-%s" % (c["init"], p["op"]) if moving(its) else ""


@gen.mk
def twist(draw):
    n = gen.dim(draw, 6)
    cplx = draw(st.integers(0, 4)) == 0
    a = prob.draw_lin(draw, n, None, cplx, draw(st.booleans()), 0.3, 1.2)
    a["scale"] = 1.0
    c = {"a": a, "b": gen.vec(draw, a["m"], cplx, style=(8, 2), scale=False), "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False),
         "niter": gen.many(draw, 10), "cost": draw(st.booleans()), "how": draw(st.sampled_from(["ab", "eigs", "auto", "alpha", "beta"]))}
    c["alpha"], c["beta"] = draw(st.integers(5, 30)) / 20, draw(st.integers(5, 40)) / 20
    c["eigs"] = [draw(st.integers(8, 30)) / 20, draw(st.integers(0, 8)) / 20]
    return c


@sub("twist", twist, quick=400)
def _(c):
    f, p = prob.F({"a": c["a"], "b": c["b"], "sigma": 1.0}), c["g"]
    x0, how = gen.arr(c["x0"]), c["how"]
    if how == "auto" and (x0.size < 3 or f.L < 1e-3):     # ARPACK needs three unknowns and a non-zero operator
        how = "eigs"
    alpha, beta = c["alpha"], c["beta"]
    if how != "ab":
        emax, emin = c["eigs"] if how != "auto" else (f.L, f.mu)
        emax = max(1.0, emax)
        r = np.sqrt(emin / emax)
        rho = (1 - r) / (1 + r)
        al = alpha if how == "alpha" else 1 + rho ** 2
        be = beta if how == "beta" else 2 * al / (emax + emin)
        alpha, beta = al, be
    kw = {"ab": dict(alpha=c["alpha"], beta=c["beta"]), "eigs": dict(eigs=tuple(c["eigs"])), "auto": {},
          "alpha": dict(alpha=c["alpha"], eigs=tuple(c["eigs"])), "beta": dict(beta=c["beta"], eigs=tuple(c["eigs"]))}[how]
    its = []
    r = primal.TwIST(ops.build(p), prob.linop(c["a"], f.A), f.b.copy(), x0.copy(), niter=c["niter"], returncost=c["cost"],
                     callback=lambda v: its.append(v.copy()), **kw)
    x = r[0] if c["cost"] else r
    ref = recur.twist(ops.build(p).prox, f.A, f.b, x0, alpha, beta, c["niter"])
    # the computed smallest eigenvalue enters through its square root
    rt = 1e-8 if how != "auto" else (1e-6 if f.mu > 1e-6 * f.L else 1e-4)
    k = compare(its, ref, "TwIST(%s) on %s" % (how, p["op"]), x0, rt, final=x)
    if c["cost"]:
        g = ops.build(p)
        for j, v in enumerate(its[:k]):
            t = f.val(v) + float(g(v))
            if abs(r[1][j] - t) > 1e-8 * (1 + abs(t)) and np.isfinite(t):
                raise Violation("TwIST cost after iteration %d is %r, the objective is %r" % (j + 1, r[1][j], t))
    return "%s-%s" % (how, p["op"]) if moving(its) else ""


@gen.mk
def ppa(draw):
    n = gen.dim(draw, 6)
    cplx = draw(st.integers(0, 4)) == 0
    return {"g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "tau": gen.pos(draw), "niter": gen.many(draw, 10)}


@sub("proximal_point", ppa, quick=250)
def _(c):
    x0 = gen.arr(c["x0"])
    its = []
    x = primal.ProximalPoint(ops.build(c["g"]), x0.copy(), c["tau"], niter=c["niter"], tol=None, callback=lambda v: its.append(v.copy()))
    ref = recur.proximal_point(ops.build(c["g"]).prox, x0, c["tau"], c["niter"])
    compare(its, ref, "ProximalPoint on " + c["g"]["op"], x0, final=x)
    return c["g"]["op"] if moving(its) else ""


sub("units", units.strategy(["ProximalPoint", "ProximalGradient", "ProximalGradient(backtracking)", "AndersonProximalGradient", "GeneralizedProximalGradient", "HQS", "TwIST"]), quick=400)(units.check)


@gen.mk
def long_case(draw):
    return dict(longrun.draw(draw), solver=draw(st.sampled_from(["pg", "pg", "pg", "gpg", "gpg", "hqs", "ppa", "twist", "anderson"])),
                acc=draw(st.sampled_from([None, "vandenberghe", "fista", "fista"])), k=draw(st.integers(1, 3)))


@sub("long_runs", long_case, quick=150)
def _(c):
    """hundreds of iterations on slowly converging problems"""
    f, g, fr, gr = longrun.f(c), longrun.g(c), longrun.f(c), longrun.g(c)
    x0, N, its, acc = np.array(c["x0"]), c["niter"], [], c["acc"]
    cb = lambda v: its.append(v.copy())
    s, t = c["solver"], c["frac"]
    if s == "pg":
        x = primal.ProximalGradient(f, g, x0.copy(), tau=t, niter=N, acceleration=acc, callback=cb)
        ref = recur.proximal_gradient(fr.grad, gr.prox, x0, 1.0, t, N, acc, 1.0)
    elif s == "gpg":
        k = c["k"]
        t = t / 2
        x = primal.GeneralizedProximalGradient([f], [longrun.g(c) for _ in range(k)], x0.copy(), tau=t, niter=N, acceleration=acc, callback=cb)
        ref = recur.generalized([fr.grad], [longrun.g(c).prox for _ in range(k)], x0, t, 1.0, None, N, acc, 1.0)
    elif s == "hqs":
        x, _ = primal.HQS(f, g, x0.copy(), 10 * t, niter=N, gfirst=c["gfirst"], callback=cb)
        ref = [r[0] for r in recur.hqs(fr.prox, gr.prox, x0, x0, 10 * t, N, c["gfirst"])]
    elif s == "ppa":
        x = primal.ProximalPoint(f, x0.copy(), 10 * t, niter=N, callback=cb)
        ref = recur.proximal_point(fr.prox, x0, 10 * t, N)
    elif s == "twist":
        A = np.diag(c["d"])
        x = primal.TwIST(g, pylops.MatrixMult(A), np.array(c["b"]), x0.copy(), alpha=1.2, beta=t, niter=N, callback=cb)
        ref = recur.twist(gr.prox, A, np.array(c["b"]), x0, 1.2, t, N)
    else:
        # (a strongly regularised memory: the recursion does not amplify rounding)
        x = primal.AndersonProximalGradient(f, g, x0.copy(), tau=t, niter=N, nhistory=c["k"] + 1, epsr=10.0, callback=cb)
        ref = recur.anderson(fr.grad, gr.prox, x0, 1.0, t, N, c["k"] + 1, 10.0, False, None)
    if isinstance(ref, tuple):
        ref = ref[0]
    compare(its, ref, "%s (acceleration=%s) with a diagonal operator, %d iterations" % (s, acc, N), x0, rtol=1e-7, final=x)
    return s + str(N) if longrun.moving(its) else ""
