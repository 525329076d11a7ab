"""C23 primal-dual solvers."""
import numpy as np
from hypothesis import strategies as st

import pylops
from pyproximal.optimization import primaldual as pd
from vlib import gen, longrun, ops, prob, recur, units
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: quadratic or catalogue f, any convex g, operators square/tall/wide real and complex, fixed or per-iteration steps, theta 0 to 1, both orders, "
        "linear term z, initial dual; adaptive version with all its parameters; runs of 40 to 400 iterations on slowly converging problems; non-trivial: iterates move, operator non-zero / the saddle point differs from the start")
ASSUMPTIONS = ["recursions as documented; adaptive balancing as in the cited paper",
               "a branch of the adaptive rule decided by rounding ends the comparison of that history",
               "convergence is decided when the documented recursion, run with dense algebra, has reached the saddle point within the same iterations"]

NAMES = ["L1", "L1", "L2", "Euclidean", "Huber", "L21", "Box", "EuclideanBall", "HalfSpace", "L1Ball", "L2Op", "SimplexSet"]


def compare(its, ref, what, s0, rtol=1e-8):
    for k, (a, b) in enumerate(zip(its, ref)):
        s = s0 + max(mx(v) for v in ref[:k + 1])
        if s > 1e6 * s0:
            return False
        same(out(a, np.shape(b), what), b, "%s, iterate %d" % (what, k + 1), s, rtol)
    return True


def draw_term(draw, n, cplx):
    if draw(st.booleans()):
        f = prob.draw_f(draw, n, cplx, draw(st.booleans()))
        f["a"]["form"] = "explicit"
        return {"f": f}
    return {"g": prob.draw_g(draw, n, cplx, names=prob.G_CPLX if cplx else NAMES)}


def mk(t):
    return prob.F(t["f"]).op() if "f" in t else ops.build(t["g"])


def nm(t):
    return "quad" if "f" in t else t["g"]["op"]


@gen.mk
def case(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 5)
    m = n if draw(st.integers(0, 2)) == 0 else gen.dim(draw, 5)
    niter = gen.many(draw, 8)
    c = {"f": draw_term(draw, n, cplx), "g": draw_term(draw, m, cplx), "A": prob.draw_lin(draw, n, m, cplx, draw(st.booleans())),
         "x0": gen.vec(draw, n, cplx, scale=False), "y0": gen.vec(draw, m, cplx, scale=False) if draw(st.booleans()) else None,
         "z": gen.vec(draw, n, cplx, scale=False) if draw(st.booleans()) else None, "niter": niter, "theta": draw(st.sampled_from([None, 1.0, 0.0, 0.5, 0.3])),
         "gfirst": draw(st.sampled_from([True, False, None])), "cby": draw(st.booleans()), "ry": draw(st.booleans())}
    for k in ("tau", "mu"):
        c[k] = [gen.pos(draw) for _ in range(niter)] if draw(st.booleans()) else draw(st.sampled_from([1, 2, 0.3, 0.7, 4.0]))
    return c


@sub("primal_dual", case, quick=600)
def _(c):
    A = prob.dense(c["A"])
    x0 = gen.arr(c["x0"])
    y0 = None if c["y0"] is None else gen.arr(c["y0"])
    z = None if c["z"] is None else gen.arr(c["z"])
    kw = {}
    if c["theta"] is not None:
        kw["theta"] = c["theta"]
    if c["gfirst"] is not None:
        kw["gfirst"] = c["gfirst"]
    st_ = {k: np.array(c[k]) if isinstance(c[k], list) else c[k] for k in ("tau", "mu")}
    its, ys = [], []

    def cb(x, y=None):
        its.append(x.copy())
        ys.append(None if y is None else y.copy())
    r = pd.PrimalDual(mk(c["f"]), mk(c["g"]), prob.linop(c["A"], A), x0.copy(), st_["tau"], st_["mu"], y0=None if y0 is None else y0.copy(),
                      z=None if z is None else z.copy(), niter=c["niter"], callback=cb, callbacky=c["cby"], returny=c["ry"], **kw)
    x, y = r if c["ry"] else (r, None)
    ref = recur.primaldual(mk(c["f"]).prox, recur.dual(mk(c["g"]).prox), A, x0, np.zeros(A.shape[0], dtype=A.dtype) if y0 is None else y0, st_["tau"], st_["mu"],
                           kw.get("theta", 1.0), 0 if z is None else z, c["niter"], kw.get("gfirst", True))
    what = "PrimalDual(gfirst=%s, theta=%s, steps %s/%s, z %s, y0 %s) on %s, %s" % (
        kw.get("gfirst"), kw.get("theta"), type(st_["tau"]).__name__, type(st_["mu"]).__name__, z is not None, y0 is not None, nm(c["f"]), nm(c["g"]))
    if len(its) != c["niter"]:
        raise Violation("%s: %d callbacks for %d iterations" % (what, len(its), c["niter"]))
    s0 = 1 + mx(x0) + (0 if y0 is None else mx(y0)) + (0 if z is None else mx(z))
    ok = compare([np.concatenate([u, v]) for u, v in zip(its, ys)] if c["cby"] else its,
                 [np.concatenate(v) for v in ref] if c["cby"] else [v[0] for v in ref], what, s0, 1e-7)
    if not c["cby"] and any(v is not None for v in ys):
        raise Violation("%s passes y to a callback that did not ask for it" % what)
    if not np.array_equal(x, its[-1]):
        raise Violation("%s returns %s, the last iterate is %s" % (what, x, its[-1]))
    s = s0 + max(max(mx(a), mx(b)) for a, b in ref)
    if y is not None and ok and s < 1e6 * s0:
        same(y, ref[-1][1], what + ", y", s, 1e-7)
    return "%s-%s-%dx%d" % (nm(c["f"]), nm(c["g"]), *A.shape) if len(its) > 1 and nrm(its[-1] - its[0]) > 0 and mx(A) > 0 else ""


@gen.mk
def adap(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 5)
    m = n if draw(st.integers(0, 2)) == 0 else gen.dim(draw, 5)
    return {"f": draw_term(draw, n, cplx), "g": draw_term(draw, m, cplx), "A": prob.draw_lin(draw, n, m, cplx, draw(st.booleans())),
            "x0": gen.vec(draw, n, cplx, scale=False), "z": gen.vec(draw, n, cplx, scale=False) if draw(st.booleans()) else None, "niter": gen.many(draw, 15),
            "tau": draw(st.sampled_from([0.05, 0.3, 1.0, 4.0])), "mu": draw(st.sampled_from([0.05, 0.3, 1.0, 4.0])), "tol": draw(st.sampled_from([1e-10, 1e-3, 0.3, 3.0])),
            "kw": {k: draw(st.sampled_from(v)) for k, v in (("alpha", [0.5, 0.3, 0.9]), ("eta", [0.95, 0.5]), ("s", [1.0, 0.1, 5.0]), ("delta", [1.5, 1.1, 4.0]))
                   if draw(st.booleans())}}


@sub("adaptive", adap, quick=500)
def _(c):
    A = prob.dense(c["A"])
    x0 = gen.arr(c["x0"])
    z = None if c["z"] is None else gen.arr(c["z"])
    kw = c["kw"]
    its = []
    x, steps = pd.AdaptivePrimalDual(mk(c["f"]), mk(c["g"]), prob.linop(c["A"], A), x0.copy(), c["tau"], c["mu"], z=None if z is None else z.copy(),
                                     niter=c["niter"], tol=c["tol"], callback=lambda v: its.append(v.copy()), **kw)
    full = dict(alpha=0.5, eta=0.95, s=1.0, delta=1.5)
    full.update(kw)
    ref, rs, tie = recur.adaptive(mk(c["f"]).prox, recur.dual(mk(c["g"]).prox), A, x0, c["tau"], c["mu"], full["alpha"], full["eta"], full["s"], full["delta"],
                                  0 if z is None else z, c["niter"], c["tol"])
    what = "AdaptivePrimalDual(%s, tol=%g) on %s, %s" % (kw, c["tol"], nm(c["f"]), nm(c["g"]))
    s0 = 1 + mx(x0) + (0 if z is None else mx(z))
    if its and not np.array_equal(x, its[-1]):
        raise Violation("%s returns %s, the last iterate is %s" % (what, x, its[-1]))
    if len(steps) != 3 or any(np.shape(v) != (len(its) + 1,) for v in steps):
        raise Violation("%s: %d iterations but steps of shapes %s" % (what, len(its), [np.shape(v) for v in steps]))
    ok = compare(its, [v[0] for v in ref], what, s0, 1e-7)
    if not tie and ok and len(its) != len(ref):
        raise Violation("%s stops after %d iterations, its criterion is met after %d" % (what, len(its), len(ref)))
    if ok:
        for k, v in enumerate(rs[:len(its) + 1]):
            for name, a, b in zip(("tau", "mu", "alpha"), [q[k] for q in steps], v):
                if not abs(a - b) <= 1e-9 * abs(b):
                    raise Violation("%s: %s after iteration %d is %r, the balancing rule gives %r" % (what, name, k, a, b))
    ch = len(set(v[0] for v in rs)) > 1
    return "%s-%s%s" % (nm(c["f"]), nm(c["g"]), "-early" if len(its) < c["niter"] else "") if ch and len(ref) > 1 else ""


@gen.mk
def conv(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    f = prob.draw_f(draw, n, cplx, True)
    f["a"]["form"] = "explicit"
    return {"f": f, "A": prob.draw_lin(draw, n, m, cplx, draw(st.booleans())),
            "g": prob.draw_g(draw, m, cplx, names=prob.G_CPLX[:3] if cplx else ["L1", "L1", "L2", "Euclidean", "Huber", "L21"]),
            "x0": gen.vec(draw, n, cplx, scale=False), "y0": gen.vec(draw, m, cplx, scale=False) if draw(st.booleans()) else None,
            "z": gen.vec(draw, n, cplx, scale=False) if draw(st.booleans()) else None, "gfirst": draw(st.booleans()), "frac": draw(st.sampled_from([0.3, 1.0, 3.0])),
            "sched": draw(st.booleans()), "theta": draw(st.sampled_from([1.0, 1.0, 1.0, 0.9])), "adaptive": draw(st.integers(0, 2)) == 0}


@sub("converges", conv, quick=150, budget=(60, 1500))
def _(c):
    f, p = prob.F(c["f"]), c["g"]
    A = prob.dense(c["A"])
    L = float(np.linalg.norm(A, 2))
    if L < 1e-4:
        return ""
    x0 = gen.arr(c["x0"])
    z = None if c["z"] is None else gen.arr(c["z"])
    y0 = None if c["y0"] is None else gen.arr(c["y0"])
    r = prob.solve_lin(f, p, A, zlin=z)
    if r is None:
        return ""
    xs = r[0]
    N = 600
    tau = c["frac"] / np.sqrt(f.L * f.mu)
    mu = 0.95 / (tau * L * L)
    gp = lambda v, s: prob.gprox(p, v, s)
    zz = 0 if z is None else z
    if c["adaptive"]:
        x, _ = pd.AdaptivePrimalDual(f.op(), ops.build(p), prob.linop(c["A"], A), x0.copy(), tau, mu, z=z, niter=N, tol=1e-12)
        y = None
        what = "AdaptivePrimalDual"

        def ref():
            t, m, al, xk, yk = tau, mu, 0.5, x0, np.zeros(A.shape[0], dtype=A.dtype)
            for _ in range(N):
                a, b, tie = recur.adaptive(f.prox, recur.dual(gp), A, x0, tau, mu, 0.5, 0.95, 1.0, 1.5, zz, N, 1e-12)
                return a[-1] if a else (x0, yk)
    else:
        s1 = tau * np.ones(N) if c["sched"] else float(tau)
        s2 = mu * np.ones(N) if c["sched"] else float(mu)
        if c["sched"]:
            s1[:50] *= 0.5
        x, y = pd.PrimalDual(f.op(), ops.build(p), prob.linop(c["A"], A), x0.copy(), s1, s2, y0=None if y0 is None else y0.copy(), z=z, theta=c["theta"],
                             niter=N, gfirst=c["gfirst"], returny=True)
        what = "PrimalDual(gfirst=%s, theta=%g)" % (c["gfirst"], c["theta"])
        ref = lambda: recur.primaldual(f.prox, recur.dual(gp), A, x0, np.zeros(A.shape[0], dtype=A.dtype) if y0 is None else y0, s1, s2, c["theta"], zz, N, c["gfirst"])[-1]
    s = (1 + mx(xs) + mx(x0)) * (1 + L)
    bad = None
    if not nrm(x - xs) <= 1e-5 * s:
        bad = "ends at x=%s, the minimiser is %s" % (x, xs)
    elif y is not None:
        # the dual output certifies the primal one
        sy = 1 + mx(y) + mx(xs) * L
        r1 = nrm(f.grad(x) + zz + A.conj().T @ y)
        r2 = nrm(gp(A @ x + y, 1.0) - A @ x)
        if r1 > 1e-4 * sy * (1 + f.L) * (1 + L) or r2 > 1e-4 * sy * (1 + L):
            bad = "returns a dual vector %s that does not certify x=%s (residuals %g, %g)" % (y, x, r1, r2)
    if bad:
        rx, ry = ref()
        if nrm(rx - xs) > 1e-6 * s or (y is not None and nrm(gp(A @ rx + ry, 1.0) - A @ rx) > 1e-6):
            return ""
        raise Violation("%s on quadratic, %s, A %dx%d: %s" % (what, p["op"], *A.shape, bad))
    return "%s-%s-%dx%d" % ("adaptive" if c["adaptive"] else "fixed", p["op"], *A.shape) if nrm(x0 - xs) > 1e-3 else ""


sub("units", units.strategy(["PrimalDual", "AdaptivePrimalDual"]), quick=300)(units.check)


@gen.mk
def long_case(draw):
    m = draw(st.integers(1, 3))
    return dict(longrun.draw(draw), A=[[draw(st.sampled_from([-1.0, 0.0, 0.5, 1.0])) for _ in range(4)] for _ in range(m)], theta=draw(st.sampled_from([1.0, 1.0, 0.5, 0.0])),
                tau=draw(st.sampled_from([1.0, 10.0, 100.0])), adaptive=draw(st.booleans()), alpha=draw(st.sampled_from([0.5, 0.1, 0.9])), decay=draw(st.sampled_from([0.95, 0.99, 0.5])))


@sub("long_runs", long_case, quick=100)
def _(c):
    """hundreds of iterations on slowly converging problems"""
    f, g, fr, gr = longrun.f(c), longrun.g(c), longrun.f(c), longrun.g(c)
    x0, N, tau, its = np.array(c["x0"]), c["niter"], c["tau"], []
    cb = lambda v: its.append(v.copy())
    A = np.array(c["A"])[:, :x0.size]
    mu = c["frac"] / tau / max(np.linalg.norm(A, 2) ** 2, 1e-3)
    if c["adaptive"]:
        x, steps = pd.AdaptivePrimalDual(f, g, pylops.MatrixMult(A), x0.copy(), tau, mu, alpha=c["alpha"], eta=c["decay"], niter=N, tol=1e-14, callback=cb)
        ref, rs, tie = recur.adaptive(fr.prox, recur.dual(gr.prox), A, x0, tau, mu, c["alpha"], c["decay"], 1.0, 1.5, 0, N, 1e-14)
        k = min(len(its), len(ref))
        if not tie and len(its) != len(ref):
            raise Violation("AdaptivePrimalDual stops after %d iterations, its criterion is met after %d" % (len(its), len(ref)))
        its, ref = its[:k], ref[:k]
        for name, a, i in zip(("tau", "mu", "alpha"), steps, range(3)):
            b = np.array([r[i] for r in rs[:k + 1]])
            if not np.allclose(a[:k + 1], b, rtol=1e-8, atol=0):
                j = int(np.argmax(np.abs(a[:k + 1] - b) / b))
                raise Violation("AdaptivePrimalDual: %s is %s before iteration %d, expected %s" % (name, a[j], j + 1, b[j]))
    else:
        x = pd.PrimalDual(f, g, pylops.MatrixMult(A), x0.copy(), tau, mu, theta=c["theta"], niter=N, gfirst=c["gfirst"], callback=cb)
        ref = recur.primaldual(fr.prox, recur.dual(gr.prox), A, x0, np.zeros(A.shape[0]), tau, mu, c["theta"], 0, N, c["gfirst"])
    compare(its, [r[0] for r in ref], "%s with a diagonal operator, %d iterations" % ("AdaptivePrimalDual" if c["adaptive"] else "PrimalDual", N), 1 + mx(x0), 1e-7)
    return ("apd" if c["adaptive"] else "pd") + str(N) if longrun.moving(its) else ""
