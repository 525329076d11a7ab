"""C22 Douglas-Rachford, PPXA and consensus ADMM."""
import numpy as np
from hypothesis import strategies as st

from pyproximal.optimization import primal
from vlib import gen, longrun, ops, prob, recur, units
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: lists of 1 to 5 convex terms (quadratic data fits and catalogue functions, real/complex) in any order, steps, relaxation 0.2 to 1.9, "
        "positive normalised weights (array or list) or default, every accepted form of the initial vector; "
        "runs of 40 to 400 iterations on slowly converging problems; non-trivial: at least two terms and the iterates move / the solution differs from the start")
ASSUMPTIONS = ["recursions as documented", "prox of the operands are those of independently built equal operators",
               "convergence is decided when the documented recursion, run with independent references, has reached the independent minimiser within the same iterations"]


def compare(its, ref, what, s0, rtol=1e-8, final=None, full=True):
    if full and len(its) != len(ref):
        raise Violation("%s: %d callbacks for %d iterations" % (what, len(its), len(ref)))
    for k, (a, b) in enumerate(zip(its, ref)):
        s = s0 + max(mx(v) for v in ref[:k + 1])
        if s > 1e6 * s0:
            return
        same(out(a, np.shape(b), what), b, "%s, iterate %d" % (what, k + 1), s, rtol)
    if final is not None and not np.array_equal(final, its[-1]):
        raise Violation("%s returns %s, the last iterate is %s" % (what, final, its[-1]))


def moves(its):
    return len(its) >= 2 and nrm(its[-1] - its[0]) > 0


NAMES = ["L1", "L1", "L2", "Euclidean", "Huber", "L21", "Box", "EuclideanBall", "HalfSpace", "SimplexSet", "L1Ball", "HuberCircular", "L2Op"]


def draw_term(draw, n, cplx, full=None):
    if draw(st.integers(0, 2)) == 0:
        f = prob.draw_f(draw, n, cplx, draw(st.booleans()) if full is None else full)
        f["a"]["form"] = "explicit"
        return {"f": f}
    return {"g": prob.draw_g(draw, n, cplx, names=prob.G_CPLX if cplx else NAMES)}


def mk(t):
    return prob.F(t["f"]).op() if "f" in t else ops.build(t["g"])


def tprox(t):
    if "f" in t:
        return prob.F(t["f"]).prox
    return lambda x, s: prob.gprox(t["g"], x, s)


def nm(t):
    return "quad" if "f" in t else t["g"]["op"]


@gen.mk
def dr(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n = gen.dim(draw, 6)
    return {"f": draw_term(draw, n, cplx), "g": draw_term(draw, n, cplx), "x0": gen.vec(draw, n, cplx, scale=False), "tau": gen.pos(draw),
            "eta": draw(st.sampled_from([None, 1.0, 0.2, 0.7, 1.5, 1.9])), "niter": gen.many(draw, 10), "gfirst": draw(st.sampled_from([True, False, None])),
            "cby": draw(st.booleans())}


@sub("douglas_rachford", dr, quick=500)
def _(c):
    x0 = gen.arr(c["x0"])
    kw = {} if c["gfirst"] is None else {"gfirst": c["gfirst"]}
    if c["eta"] is not None:
        kw["eta"] = c["eta"]
    its, ys = [], []

    def cb(x, y=None):
        its.append(x.copy())
        ys.append(None if y is None else y.copy())
    x, y = primal.DouglasRachfordSplitting(mk(c["f"]), mk(c["g"]), x0.copy(), c["tau"], niter=c["niter"], callback=cb, callbacky=c["cby"], **kw)
    ref = recur.drs(mk(c["f"]).prox, mk(c["g"]).prox, x0, c["tau"], c["eta"] or 1.0, c["niter"], kw.get("gfirst", True))
    what = "DouglasRachfordSplitting(gfirst=%s, eta=%s) on %s, %s" % (kw.get("gfirst"), c["eta"], nm(c["f"]), nm(c["g"]))
    s0 = 1 + mx(x0)
    compare(its, [a for a, _ in ref], what, s0, final=x)
    s = s0 + max(max(mx(a), mx(b)) for a, b in ref)
    if s < 1e6 * s0:
        same(y, ref[-1][1], what + ", y", s, 1e-8)
        for k, v in enumerate(ys):
            if c["cby"]:
                same(v, ref[k][1], what + ", y at iteration %d" % (k + 1), s, 1e-8)
            elif v is not None:
                raise Violation("DouglasRachfordSplitting passes y to a callback that did not ask for it")
    return "%s-%s" % (nm(c["f"]), nm(c["g"])) if moves(its) else ""


def draw_w(draw, m):
    if draw(st.integers(0, 2)) == 0:
        return None
    w = [draw(st.integers(1, 5)) for _ in range(m)]
    return [a / sum(w) for a in w]


@gen.mk
def ppxa(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n, m = gen.dim(draw, 5), gen.dim(draw, 5)
    form = draw(st.sampled_from(["vector", "list", "array"]))
    return {"t": [draw_term(draw, n, cplx) for _ in range(m)], "form": form,
            "x0": [gen.vec(draw, n, cplx, scale=False) for _ in range(1 if form == "vector" else m)], "w": draw_w(draw, m), "wl": draw(st.booleans()),
            "tau": gen.pos(draw), "eta": draw(st.sampled_from([None, 1.0, 0.3, 0.8, 1.5, 1.9])), "niter": gen.many(draw, 8)}


def starts(c):
    v = [gen.arr(q) for q in c["x0"]]
    y0 = v * len(c["t"]) if c["form"] == "vector" else v
    arg = v[0].copy() if c["form"] == "vector" else [q.copy() for q in v] if c["form"] == "list" else np.array(v)
    return arg, y0


@sub("ppxa", ppxa, quick=500)
def _(c):
    arg, y0 = starts(c)
    m = len(c["t"])
    kw = {} if c["eta"] is None else {"eta": c["eta"]}
    if c["w"] is not None:
        kw["weights"] = list(c["w"]) if c["wl"] else np.array(c["w"])
    its = []
    x = primal.PPXA([mk(t) for t in c["t"]], arg, c["tau"], niter=c["niter"], tol=None, callback=lambda v: its.append(v.copy()), **kw)
    w = c["w"] or [1 / m] * m
    ref = recur.ppxa([mk(t).prox for t in c["t"]], y0, c["tau"], c["eta"] or 1.0, w, c["niter"])
    s0 = 1 + max(mx(v) for v in y0)
    compare(its, ref, "PPXA(x0 as %s, weights=%s, eta=%s) on %s" % (c["form"], c["w"], c["eta"], [nm(t) for t in c["t"]]), s0, 1e-7, final=x)
    return "m%d-%s" % (m, c["form"]) if m > 1 and moves(its) else ""


@gen.mk
def cons(draw):
    cplx = draw(st.integers(0, 4)) == 0
    n, m = gen.dim(draw, 5), gen.dim(draw, 5)
    return {"t": [draw_term(draw, n, cplx) for _ in range(m)], "form": "vector", "x0": [gen.vec(draw, n, cplx, scale=False)], "tau": gen.pos(draw),
            "niter": gen.many(draw, 8)}


@sub("consensus", cons, quick=400)
def _(c):
    arg, y0 = starts(c)
    its = []
    x = primal.ConsensusADMM([mk(t) for t in c["t"]], arg, c["tau"], niter=c["niter"], tol=None, callback=lambda v: its.append(v.copy()))
    ref = recur.consensus([mk(t).prox for t in c["t"]], y0[0], c["tau"], c["niter"])
    s0 = 1 + max(mx(v) for v in y0)
    compare(its, ref, "ConsensusADMM on %s" % [nm(t) for t in c["t"]], s0, 1e-7, final=x)
    return "m%d" % len(c["t"]) if len(c["t"]) > 1 and moves(its) else ""


# ------------------------------------------------------------------ convergence
CONV = ["L1", "L1", "L2", "Euclidean", "Huber", "Box", "EuclideanBall", "L21", "HalfSpace", "L1Ball"]


@gen.mk
def conv(draw):
    cplx = draw(st.integers(0, 5)) == 0
    n = draw(st.integers(1, 5))
    how = draw(st.sampled_from(["dr", "ppxa", "consensus"]))
    f = prob.draw_f(draw, n, cplx)
    f["a"]["form"] = "explicit"
    k = 1 if how == "dr" else draw(st.integers(1, 3))
    t = [{"f": f}] + [{"g": prob.draw_g(draw, n, cplx, names=prob.G_CPLX if cplx else CONV)} for _ in range(k)]
    pos = draw(st.integers(0, k))
    t.insert(pos, t.pop(0))
    form = draw(st.sampled_from(["vector", "list"])) if how == "ppxa" else "vector"
    return {"t": t, "pos": pos, "how": how, "form": form, "x0": [gen.vec(draw, n, cplx, scale=False) for _ in range(1 if form == "vector" else len(t))],
            "w": draw_w(draw, len(t)), "wl": draw(st.booleans()), "frac": draw(st.sampled_from([0.3, 1.0, 1.0, 3.0])), "eta": draw(st.sampled_from([1.0, 0.6, 1.4])),
            "gfirst": draw(st.booleans())}


def reference(f, ps, N=4000):
    """independent minimiser of f + sum g_i: dual block scheme is avoided, plain consensus splitting with unequal scaling"""
    n = f.A.shape[1]
    m = len(ps)
    if m == 1:
        return prob.solve(f, ps[0])
    r = 1.0 / np.sqrt(f.L * f.mu)
    AH = f.A.conj().T
    # x-update of min f(x) + sum g_i(z_i), z_i = x
    M = np.linalg.inv(f.sigma * AH @ f.A + m / r * np.eye(n))
    c = f.sigma * AH @ f.b
    z = [np.zeros(n, dtype=f.A.dtype)] * m
    u = [np.zeros(n, dtype=f.A.dtype)] * m
    for k in range(N):
        x = M @ (c + sum(a - b for a, b in zip(z, u)) / r)
        zn = [prob.gprox(p, x + b, r) for p, b in zip(ps, u)]
        u = [b + x - a for a, b in zip(zn, u)]
        d = max(max(nrm(x - a) for a in zn), max(nrm(a - b) for a, b in zip(zn, z)))
        z = zn
        if d < 1e-10 * (1 + nrm(x)):
            return x
    return None


@sub("converges", conv, quick=150, budget=(60, 1500))
def _(c):
    t, how = c["t"], c["how"]
    f = prob.F(t[c["pos"]]["f"])
    ps = [q["g"] for i, q in enumerate(t) if i != c["pos"]]
    if sum(bool(ops.get(p).ind) for p in ps) > 1:
        x = np.zeros(f.A.shape[1], dtype=f.A.dtype)
        sets = [p for p in ps if ops.get(p).ind]
        for _ in range(500):
            for p in sets:
                x = prob.gprox(p, x, 1.0)
        if max(ops.get(p).viol(p, x.reshape(ops.get(p).shape(p))) for p in sets) > 1e-8:
            raise Skip()
    xs = reference(f, ps)
    if xs is None:
        return ""
    arg, y0 = starts(c)
    tau = c["frac"] / np.sqrt(f.L * f.mu)
    N = 500
    pr = [tprox(q) for q in t]
    if how == "dr":
        F, G = mk(t[c["pos"]]), mk(t[1 - c["pos"]])
        x, y = primal.DouglasRachfordSplitting(F, G, arg, tau, eta=c["eta"], niter=N, gfirst=c["gfirst"])
        ref = lambda: recur.drs(pr[c["pos"]], pr[1 - c["pos"]], y0[0], tau, c["eta"], N, c["gfirst"])[-1][0]
    elif how == "ppxa":
        w = c["w"] or [1 / len(t)] * len(t)
        tau = tau / len(t)
        x = primal.PPXA([mk(q) for q in t], arg, tau, eta=c["eta"], weights=c["w"], niter=N, tol=None)
        ref = lambda: recur.ppxa(pr, y0, tau, c["eta"], w, N)[-1]
    else:
        x = primal.ConsensusADMM([mk(q) for q in t], arg, tau, niter=N, tol=None)
        ref = lambda: recur.consensus(pr, y0[0], tau, N)[-1]
    s = 1 + mx(xs) + max(mx(v) for v in y0)
    acc = 0.0
    for p in ps:
        o = ops.get(p)
        if "xtol" in p or p["op"] == "AffineSet":
            acc += float(np.max(np.asarray(o.acc(p, xs.reshape(o.shape(p))))))
    tol = 1e-5 * s + 50 * acc * xs.size * f.L / f.mu
    if not nrm(x - xs) <= tol:
        if nrm(ref() - xs) > 0.1 * tol:
            return ""
        raise Violation("%s(tau=%g) on %s ends at %s after %d iterations; the minimiser is %s" % (how, tau, [nm(q) for q in t], x, N, xs))
    return "%s-m%d" % (how, len(t)) if nrm(y0[0] - xs) > 1e-3 and nrm(np.linalg.lstsq(f.A, f.b, rcond=None)[0] - xs) > 1e-6 else ""


sub("units", units.strategy(["DouglasRachfordSplitting", "PPXA", "ConsensusADMM"]), quick=300)(units.check)


@gen.mk
def long_case(draw):
    return dict(longrun.draw(draw), solver=draw(st.sampled_from(["drs", "drs", "ppxa", "cadmm"])), tau=draw(st.sampled_from([1.0, 10.0, 100.0])),
                eta=draw(st.sampled_from([1.0, 0.5, 1.6])), k=draw(st.integers(1, 3)))


@sub("long_runs", long_case, quick=100)
def _(c):
    """hundreds of iterations on slowly converging problems"""
    f, g, fr, gr = longrun.f(c), longrun.g(c), longrun.f(c), longrun.g(c)
    x0, N, t, its, k = np.array(c["x0"]), c["niter"], c["tau"], [], c["k"]
    cb = lambda v: its.append(v.copy())
    if c["solver"] == "drs":
        x, _ = primal.DouglasRachfordSplitting(f, g, x0.copy(), t, eta=c["eta"], niter=N, gfirst=c["gfirst"], callback=cb)
        ref = [r[0] for r in recur.drs(fr.prox, gr.prox, x0, t, c["eta"], N, c["gfirst"])]
    elif c["solver"] == "ppxa":
        x = primal.PPXA([f] + [longrun.g(c) for _ in range(k)], x0.copy(), t, eta=c["eta"], niter=N, tol=None, callback=cb)
        ref = recur.ppxa([fr.prox] + [longrun.g(c).prox for _ in range(k)], [x0] * (k + 1), t, c["eta"], [1 / (k + 1)] * (k + 1), N)
    else:
        x = primal.ConsensusADMM([f] + [longrun.g(c) for _ in range(k)], x0.copy(), t, niter=N, tol=None, callback=cb)
        ref = recur.consensus([fr.prox] + [longrun.g(c).prox for _ in range(k)], x0, t, N)
    compare(its, ref, "%s with a diagonal operator, %d iterations" % (c["solver"], N), 1 + mx(x0), rtol=1e-7, final=x)
    return c["solver"] + str(N) if longrun.moving(its) else ""
