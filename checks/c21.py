"""C21 ADMM, ADMM with L2 misfit, linearized ADMM."""
import numpy as np
from hypothesis import strategies as st

import pylops
from pyproximal.optimization import primal
from vlib import gen, longrun, ops, prob, recur, units
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: quadratic f (real/complex), any convex g, linear operators square/tall/wide and rank deficient, steps, both update orders, every "
        "combination of initial vectors, 1 to 10 or up to 400 iterations (recursion), several hundred (convergence); non-trivial: iterates move / "
        "g is active at the solution")
ASSUMPTIONS = ["recursions as documented with the scaled dual starting at zero",
               "prox/grad of the operands are those of independently built equal operators (decided in C02, C13)",
               "convergence is decided when the documented recursion, run with dense algebra, has reached the independent minimiser within the same iterations"]


def compare(its, ref, what, s0, rtol=1e-8, final=None):
    if len(its) != len(ref):
        raise Violation("%s: %d callbacks for %d iterations" % (what, len(its), len(ref)))
    for k, (a, b) in enumerate(zip(its, ref)):
        s = s0 + max(mx(v) for v in ref[:k + 1])
        if s > 1e6 * s0:
            return
        same(out(a, np.shape(b), what), b, "%s, iterate %d" % (what, k + 1), s, rtol)
    if final is not None and not np.array_equal(final, its[-1]):
        raise Violation("%s returns %s, the last iterate is %s" % (what, final, its[-1]))


def moves(its):
    return len(its) >= 2 and nrm(its[-1] - its[0]) > 0


@gen.mk
def admm(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 6)
    c = {"g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "z0": gen.vec(draw, n, cplx, scale=False),
         "init": draw(st.sampled_from(["x", "z", "both", "both"])), "niter": gen.many(draw, 10), "gfirst": draw(st.sampled_from([True, False, None])),
         "cbz": draw(st.booleans()), "tau": gen.pos(draw)}
    if draw(st.booleans()):
        c["f"] = prob.draw_f(draw, n, cplx, draw(st.booleans()))
        c["f"]["a"]["form"] = "explicit"
    else:
        c["f2"] = prob.draw_g(draw, n, cplx)
    return c


@sub("admm", admm, quick=600)
def _(c):
    p = c["g"]
    mk = (lambda: prob.F(c["f"]).op()) if "f" in c else (lambda: ops.build(c["f2"]))
    x0, z0 = gen.arr(c["x0"]), gen.arr(c["z0"])
    xi, zi = (x0 if c["init"] != "z" else None), (z0 if c["init"] != "x" else None)
    kw = {} if c["gfirst"] is None else {"gfirst": c["gfirst"]}
    its, zs = [], []

    def cb(x, z=None):
        its.append(x.copy())
        zs.append(None if z is None else z.copy())
    x, z = primal.ADMM(mk(), ops.build(p), None if xi is None else xi.copy(), c["tau"], niter=c["niter"], z0=None if zi is None else zi.copy(),
                       callback=cb, callbackz=c["cbz"], **kw)
    ref = recur.admm(mk().prox, ops.build(p).prox, z0 if xi is None else xi, x0 if zi is None else zi, c["tau"], c["niter"], kw.get("gfirst", False))
    what = "ADMM(gfirst=%s, init=%s) on %s" % (kw.get("gfirst"), c["init"], p["op"])
    s0 = 1 + mx(x0) + mx(z0)
    compare(its, [a for a, _ in ref], what, s0, final=x)
    s = s0 + max(max(mx(a), mx(b)) for a, b in ref)
    same(z, ref[-1][1], what + ", z", s, 1e-8)
    for k, v in enumerate(zs):
        if c["cbz"]:
            same(v, ref[k][1], what + ", z at iteration %d" % (k + 1), s, 1e-8)
        elif v is not None:
            raise Violation("ADMM passes z to a callback that did not ask for it")
    return "%s-%s-%s" % (c["init"], kw.get("gfirst"), p["op"]) if moves(its) else ""


def draw_A(draw, n, cplx):
    a = prob.draw_lin(draw, n, draw(st.integers(1, 6)), cplx, draw(st.booleans()))
    return a


LIN_G = ["L1", "L1", "L2", "Euclidean", "Huber", "Box", "EuclideanBall", "L21", "HalfSpace", "L1Ball"]


@gen.mk
def admml2(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 5)
    a = draw_A(draw, n, cplx)
    m = a["m"]
    f = prob.draw_f(draw, n, cplx, True)
    return {"f": f, "A": a, "g": prob.draw_g(draw, m, cplx, names=prob.G_CPLX if cplx else LIN_G), "x0": gen.vec(draw, n, cplx, scale=False),
            "z0": gen.vec(draw, m, cplx, scale=False) if draw(st.booleans()) else None, "niter": gen.many(draw, 6), "tau": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 10.0])),
            "gfirst": draw(st.sampled_from([True, False, None])), "lim": draw(st.booleans())}


def lsq_ok(c):
    return dict(iter_lim=400, atol=1e-15, btol=1e-15, conlim=1e14)


@sub("admml2", admml2, quick=250)
def _(c):
    f, p = prob.F(c["f"]), c["g"]
    A = prob.dense(c["A"])
    x0 = gen.arr(c["x0"])
    z0 = None if c["z0"] is None else gen.arr(c["z0"])
    kw = {} if c["gfirst"] is None else {"gfirst": c["gfirst"]}
    ref = recur.admml2(ops.build(p).prox, f.A, f.b, A, x0, A @ x0 if z0 is None else z0, c["tau"], c["niter"], kw.get("gfirst", False))
    its = []
    x, z = primal.ADMML2(ops.build(p), prob.linop(c["f"]["a"], f.A), f.b.copy(), prob.linop(c["A"], A), x0.copy(), c["tau"], niter=c["niter"],
                         z0=None if z0 is None else z0.copy(), callback=lambda v: its.append(v.copy()), **kw, **lsq_ok(c))
    what = "ADMML2(gfirst=%s, z0 %s) on %s" % (kw.get("gfirst"), "given" if z0 is not None else "default", p["op"])
    s0 = 1 + mx(x0) + (0 if z0 is None else mx(z0)) + mx(f.b)
    if not ref:
        return ""
    k = len(ref)
    if len(its) != c["niter"]:
        raise Violation("%s: %d callbacks for %d iterations" % (what, len(its), c["niter"]))
    compare(its[:k], [a for a, _ in ref], what, s0, 1e-6, final=x if k == c["niter"] else None)
    if k == c["niter"]:
        same(z, ref[-1][1], what + ", z", s0 + mx(ref[-1][1]), 1e-6)
    return "%s-%s-%dx%d" % (kw.get("gfirst"), p["op"], *A.shape) if moves(its) else ""


@gen.mk
def ladmm(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 5)
    a = draw_A(draw, n, cplx)
    m = a["m"]
    f = prob.draw_f(draw, n, cplx, draw(st.booleans()))
    f["a"]["form"] = "explicit"
    return {"f": f, "A": a, "g": prob.draw_g(draw, m, cplx, names=prob.G_CPLX if cplx else LIN_G), "x0": gen.vec(draw, n, cplx, scale=False),
            "z0": gen.vec(draw, m, cplx, scale=False) if draw(st.booleans()) else None, "niter": gen.many(draw, 10), "tau": gen.pos(draw),
            "frac": draw(st.sampled_from([0.3, 1.0, 1.5]))}


@sub("linearized", ladmm, quick=400)
def _(c):
    f, p = prob.F(c["f"]), c["g"]
    A = prob.dense(c["A"])
    x0 = gen.arr(c["x0"])
    z0 = None if c["z0"] is None else gen.arr(c["z0"])
    L = np.linalg.norm(A, 2) ** 2
    mu = c["frac"] * c["tau"] / max(L, 1e-3)
    its = []
    x, z = primal.LinearizedADMM(f.op(), ops.build(p), prob.linop(c["A"], A), x0.copy(), c["tau"], mu, niter=c["niter"],
                                 z0=None if z0 is None else z0.copy(), callback=lambda v: its.append(v.copy()))
    ref = recur.ladmm(f.op().prox, ops.build(p).prox, A, x0, A @ x0 if z0 is None else z0, c["tau"], mu, c["niter"])
    what = "LinearizedADMM(z0 %s) on %s" % ("given" if z0 is not None else "default", p["op"])
    s0 = 1 + mx(x0) + (0 if z0 is None else mx(z0))
    compare(its, [a for a, _ in ref], what, s0, final=x)
    s = s0 + max(max(mx(a), mx(b)) for a, b in ref)
    if s < 1e6 * s0:
        same(z, ref[-1][1], what + ", z", s, 1e-8)
    return "%s-%dx%d" % (p["op"], *A.shape) if moves(its) else ""


# ------------------------------------------------------------------ convergence
def acc_of(p, x):
    o = ops.get(p)
    return float(np.max(np.asarray(o.acc(p, x.reshape(o.shape(p)))))) if "xtol" in p or p["op"] == "AffineSet" else 0.0


@gen.mk
def conv(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(1, 6))
    f = prob.draw_f(draw, n, cplx)
    f["a"]["form"] = "explicit"
    c = {"f": f, "g": prob.draw_g(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "z0": gen.vec(draw, n, cplx, scale=False) if draw(st.booleans()) else None,
         "gfirst": draw(st.booleans()), "frac": draw(st.sampled_from([0.2, 1.0, 1.0, 5.0])), "how": draw(st.sampled_from(["admm", "admml2", "ladmm"]))}
    return c


def decide(x, z, Ax, xs, zs, ref, what, s, extra):
    """ref: () -> last pair of the documented recursion"""
    tol = 1e-5 * s + extra
    if nrm(x - xs) <= tol and nrm(Ax - z) <= tol:
        return True
    r = ref()
    if not r:
        return False
    rx, rz = r[-1]
    if nrm(rx - xs) > 0.1 * tol or nrm(rz - zs) > 0.1 * tol:
        return False
    raise Violation("%s ends at x=%s, z=%s; the minimiser is %s (z=%s)" % (what, x, z, xs, zs))


@sub("converges", conv, quick=150, budget=(60, 1500))
def _(c):
    if c["how"] == "admml2":
        c["f"]["sigma"] = 1.0
    f, p = prob.F(c["f"]), c["g"]
    n = f.A.shape[1]
    x0 = gen.arr(c["x0"])
    z0 = None if c["z0"] is None else gen.arr(c["z0"])
    xs = prob.solve(f, p)
    t = c["frac"] / np.sqrt(f.L * f.mu)
    N = 300
    how = c["how"]
    zi = x0 if z0 is None else z0
    kz = {} if z0 is None else {"z0": z0.copy()}
    I = np.eye(n)
    if how == "admm":
        x, z = primal.ADMM(f.op(), ops.build(p), x0.copy(), t, niter=N, gfirst=c["gfirst"], **kz)
        ref = lambda: recur.admm(f.prox, lambda v, s: prob.gprox(p, v, s), x0, zi, t, N, c["gfirst"])
    elif how == "admml2":
        N = 120
        import pylops
        x, z = primal.ADMML2(ops.build(p), prob.linop(c["f"]["a"], f.A), f.b.copy(), pylops.Identity(n, dtype=f.A.dtype), x0.copy(), t, niter=N,
                             gfirst=c["gfirst"], **kz, **lsq_ok(c))
        ref = lambda: recur.admml2(lambda v, s: prob.gprox(p, v, s), f.A, f.b, I, x0, zi, t, N, c["gfirst"])
    else:
        import pylops
        x, z = primal.LinearizedADMM(f.op(), ops.build(p), pylops.Identity(n, dtype=f.A.dtype), x0.copy(), t, t, niter=N, **kz)
        ref = lambda: recur.ladmm(f.prox, lambda v, s: prob.gprox(p, v, s), I, x0, zi, t, t, N)
    what = "%s(tau=%g, gfirst=%s) on %s" % (how, t, c["gfirst"], p["op"])
    s = 1 + mx(xs) + mx(x0) + mx(zi)
    if not decide(x, z, x, xs, xs, ref, what, s, 50 * acc_of(p, xs) * n * f.L / f.mu):
        return ""
    return "%s-%s" % (how, p["op"]) if nrm(x0 - xs) > 1e-3 and nrm(np.linalg.lstsq(f.A, f.b, rcond=None)[0] - xs) > 1e-6 else ""


@gen.mk
def conva(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(1, 5))
    a = draw_A(draw, n, cplx)
    f = prob.draw_f(draw, n, cplx, True)
    f["a"]["form"] = "explicit"
    f["sigma"] = 1.0
    return {"f": f, "A": a, "g": prob.draw_g(draw, a["m"], cplx, names=prob.G_CPLX if cplx else ["L1", "L1", "L2", "Euclidean", "Huber", "L21"]),
            "x0": gen.vec(draw, n, cplx, scale=False), "z0": gen.vec(draw, a["m"], cplx, scale=False) if draw(st.booleans()) else None,
            "gfirst": draw(st.booleans()), "frac": draw(st.sampled_from([0.5, 1.0, 3.0])), "how": draw(st.sampled_from(["admml2", "ladmm"])),
            "mu": draw(st.sampled_from([1.0, 0.7]))}


@sub("converges_operator", conva, quick=150, budget=(60, 1500))
def _(c):
    f, p = prob.F(c["f"]), c["g"]
    A = prob.dense(c["A"])
    LA = float(np.linalg.norm(A, 2)) ** 2
    if LA < 1e-6:
        return ""
    r = prob.solve_lin(f, p, A)
    if r is None:
        return ""
    xs = r[0]
    x0 = gen.arr(c["x0"])
    z0 = None if c["z0"] is None else gen.arr(c["z0"])
    zi = A @ x0 if z0 is None else z0
    kz = {} if z0 is None else {"z0": z0.copy()}
    t = c["frac"] * LA / np.sqrt(f.L * f.mu)
    gp = lambda v, s: prob.gprox(p, v, s)
    if c["how"] == "admml2":
        N = 120
        x, z = primal.ADMML2(ops.build(p), prob.linop(c["f"]["a"], f.A), f.b.copy(), prob.linop(c["A"], A), x0.copy(), t, niter=N,
                             gfirst=c["gfirst"], **kz, **lsq_ok(c))
        ref = lambda: recur.admml2(gp, f.A, f.b, A, x0, zi, t, N, c["gfirst"])
    else:
        N, mu = 500, c["mu"] * t / LA
        x, z = primal.LinearizedADMM(f.op(), ops.build(p), prob.linop(c["A"], A), x0.copy(), t, mu, niter=N, **kz)
        ref = lambda: recur.ladmm(f.prox, gp, A, x0, zi, t, mu, N)
    what = "%s(tau=%g, gfirst=%s, A %dx%d) on %s" % (c["how"], t, c["gfirst"], *A.shape, p["op"])
    s = (1 + mx(xs) + mx(x0) + mx(zi)) * (1 + LA)
    if not decide(x, z, A @ x, xs, A @ xs, ref, what, s, 50 * acc_of(p, A @ xs) * x0.size * f.L / f.mu):
        return ""
    return "%s-%s-%dx%d" % (c["how"], p["op"], *A.shape) if nrm(x0 - xs) > 1e-3 and nrm(np.linalg.lstsq(f.A, f.b, rcond=None)[0] - xs) > 1e-6 else ""


def inexact_ref(gp, A0, b, A1, x0, z0, tau, N, gfirst, lim):
    """the documented recursion with every inner system improved by a few LSQR steps from the current x"""
    import pylops
    from pylops.optimization.leastsquares import regularized_inversion
    Op, A = pylops.MatrixMult(A0, dtype=A0.dtype), pylops.MatrixMult(A1, dtype=A1.dtype)
    x, z = x0, z0
    u = 0 * z0

    def improve(x, z, u):
        return regularized_inversion(Op, b.copy(), [A], x0=x.copy(), dataregs=[z - u], epsRs=[1 / np.sqrt(tau)], iter_lim=lim)[0]
    for _ in range(N):
        if gfirst:
            z = gp(A1 @ x + u, tau)
            x = improve(x, z, u)
        else:
            x = improve(x, z, u)
            z = gp(A1 @ x + u, tau)
        u = u + A1 @ x - z
    return [(x, z)]


@gen.mk
def inexact(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(2, 6))
    a = draw_A(draw, n, cplx)
    f = prob.draw_f(draw, n, cplx, True)
    f["a"]["form"] = "explicit"
    f["sigma"] = 1.0
    return {"f": f, "A": a, "g": prob.draw_g(draw, a["m"], cplx, names=prob.G_CPLX if cplx else ["L1", "L1", "L2", "Euclidean", "Huber", "L21"]),
            "x0": gen.vec(draw, n, cplx, scale=False), "gfirst": draw(st.booleans()), "frac": draw(st.sampled_from([0.5, 1.0, 3.0])), "lim": draw(st.integers(1, 4))}


@sub("inexact", inexact, quick=60, budget=(60, 1500))
def _(c):
    """ADMML2 with a few steps of the inner solver per iteration: started from the current x they suffice"""
    f, p = prob.F(c["f"]), c["g"]
    A = prob.dense(c["A"])
    LA = float(np.linalg.norm(A, 2)) ** 2
    if LA < 1e-6 or nrm(f.b) < 1e-6:
        return ""
    r = prob.solve_lin(f, p, A)
    if r is None:
        return ""
    xs, x0 = r[0], gen.arr(c["x0"])
    t = c["frac"] * LA / np.sqrt(f.L * f.mu)
    N = 150
    x, z = primal.ADMML2(ops.build(p), prob.linop(c["f"]["a"], f.A), f.b.copy(), prob.linop(c["A"], A), x0.copy(), t, niter=N, gfirst=c["gfirst"],
                         iter_lim=c["lim"])
    ref = lambda: inexact_ref(lambda v, s: prob.gprox(p, v, s), f.A, f.b, A, x0, A @ x0, t, N, c["gfirst"], c["lim"])
    what = "ADMML2(tau=%g, gfirst=%s, %d inner steps) on %s" % (t, c["gfirst"], c["lim"], p["op"])
    s = (1 + mx(xs) + mx(x0)) * (1 + LA)
    if not decide(x, z, A @ x, xs, A @ xs, ref, what, s, 50 * acc_of(p, A @ xs) * x0.size * f.L / f.mu):
        return ""
    return "%d-%s-%dx%d" % (c["lim"], p["op"], *A.shape) if nrm(x0 - xs) > 1e-3 and c["lim"] < x0.size else ""


sub("units", units.strategy(["ADMM", "ADMML2", "LinearizedADMM"]), quick=300)(units.check)


@gen.mk
def long_case(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    c = dict(longrun.draw(draw), solver=draw(st.sampled_from(["admm", "admm", "ladmm", "ladmm"])), tau=draw(st.sampled_from([1.0, 10.0, 100.0])),
             A=[[draw(st.sampled_from([-1.0, 0.0, 0.5, 1.0])) for _ in range(4)] for _ in range(n)])
    return c


@sub("long_runs", long_case, quick=100)
def _(c):
    """hundreds of iterations on slowly converging problems"""
    f, g, fr, gr = longrun.f(c), longrun.g(c), longrun.f(c), longrun.g(c)
    x0, N, t, its = np.array(c["x0"]), c["niter"], c["tau"], []
    cb = lambda v: its.append(v.copy())
    A = np.array(c["A"])[:, :x0.size]
    if c["solver"] == "admm":
        x, _ = primal.ADMM(f, g, x0.copy(), t, niter=N, gfirst=c["gfirst"], callback=cb)
        ref = recur.admm(fr.prox, gr.prox, x0, x0, t, N, c["gfirst"])
    else:
        mu = c["frac"] * t / max(np.linalg.norm(A, 2) ** 2, 1e-3)
        x, _ = primal.LinearizedADMM(f, g, pylops.MatrixMult(A), x0.copy(), t, mu, niter=N, callback=cb)
        ref = recur.ladmm(fr.prox, gr.prox, A, x0, A @ x0, t, mu, N)
    compare(its, [r[0] for r in ref], "%s with a diagonal operator, %d iterations" % (c["solver"], N), 1 + mx(x0), rtol=1e-7, final=x)
    return c["solver"] + str(N) if longrun.moving(its) else ""
