"""C24 callback, stopping, display and initial-guess contract of every solver."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ops, prob
from vlib.core import Violation, sub
from vlib.solvers import SOLVERS, close, draw_case, go, undecidable
from vlib.util import mx, nrm, same

RULE = ("cases: every solver with random small problems (real/complex), options, initial vectors (writable, read-only, strided), iteration counts 1 to 30 and a "
        "shorter prefix count, with and without callback and display; tolerances between consecutive criterion values; "
        "non-trivial: at least two iterations with changing iterates (contract) / an early stop (tolerance)")
ASSUMPTIONS = ["runs of the same problem are compared to 1e-8 relative (memory alignment may change the last bits)",
               "stopping criteria: relative change of the objective (proximal point and gradient), maximum change of x (PPXA, consensus), both residuals (adaptive "
               "primal-dual), change of x or value of f (Bregman); iterations where the criterion is within 1e-6 of the tolerance are not decided"]

@gen.mk
def case(draw):
    return draw_case(draw, draw(st.sampled_from(list(SOLVERS))))


@sub("contract", case, quick=900)
def _(c):
    name, n = c["solver"], c["niter"]
    if undecidable(c):
        return ""
    base, res = go(c, n)
    seen = base.seen
    if len(seen) != n:
        # these stop by themselves on an exactly met criterion
        if not (name.startswith("Bregman") and len(seen) >= 1 and (len(seen) == 1 or nrm(seen[-1][0] - seen[-2][0]) == 0)) and \
                not (name == "AdaptivePrimalDual" and 1 <= len(seen) < n):
            raise Violation("%s calls the callback %d times in %d iterations" % (name, len(seen), n), name)
    last = seen[-1]
    if name == "Segment":
        x = res[0]
        if not np.array_equal(last[0].reshape(x.shape[::-1]).T, x):
            raise Violation("Segment returns probabilities %s, the last callback saw %s" % (x, last[0]), name)
    else:
        if not np.array_equal(last[0], res[0], equal_nan=True):
            raise Violation("%s returns %s, the last callback saw %s" % (name, res[0], last[0]), name)
        if len(last) > 1 and len(res) > 1 and not np.array_equal(last[1], res[1], equal_nan=True):
            raise Violation("%s returns %s as second vector, the last callback saw %s" % (name, res[1], last[1]), name)
        size = gen.arr(c["lr"]["x"]).shape if "lr" in c else gen.arr(c["x0"]).shape
        if any(v[0].shape != size for v in seen):
            raise Violation("%s passes arrays of shape %s to the callback, x0 has %s" % (name, seen[0][0].shape, size), name)
    s = 1 + max(max(mx(q) for q in v) for v in seen)
    quiet = s < 1e6 * (1 + mx(gen.arr(c["x0"])))
    other = [("without callback", dict(cb=False)), ("with show", dict(show=True)), ("with %s inputs" % c["mode"], dict(mode=c["mode"]))]
    for w, k in other:
        r, v = go(c, n, **k)
        if k.get("cb", True) and len(r.seen) != len(seen) and len(seen) == n:
            raise Violation("%s %s: %d callbacks instead of %d" % (name, w, len(r.seen), len(seen)), name)
        if quiet and name != "ProximalGradient(backtracking)":
            for a, b in zip(v, res):
                close(a, b, "%s %s" % (name, w), s)
        elif quiet:
            for a, b in zip(v, res):
                if np.all(np.isfinite(a)) and nrm(a - b) > 1e-4 * s:
                    raise Violation("%s %s: %s instead of %s" % (name, w, a, b), name)
    k = min(c["cut"], n)
    r, v = go(c, k)
    if quiet:
        for i, (a, b) in enumerate(zip(r.seen, seen)):
            for p, q in zip(a, b):
                if name == "ProximalGradient(backtracking)":
                    if nrm(p - q) > 1e-4 * s:
                        raise Violation("%s: iterate %d of %d iterations is %s, of %d it is %s" % (name, i + 1, k, p, n, q), name)
                else:
                    close(p, q, "%s: iterate %d of %d and of %d iterations" % (name, i + 1, k, n), s)
    return name if len(seen) >= 2 and nrm(seen[-1][0] - seen[0][0]) > 0 else ""


# ------------------------------------------------------------------ tolerances
TOL = ["ProximalPoint", "ProximalGradient", "ProximalGradient(backtracking)", "AndersonProximalGradient", "PPXA", "ConsensusADMM", "Bregman(PG)", "Bregman(ADMM)"]


def scaled(v, s):
    return [scaled(q, s) for q in v] if isinstance(v, list) else {k: scaled(q, s) for k, q in v.items()} if isinstance(v, dict) else v * s


def weights(draw, c):
    """weights of g that keep changing until the criterion is met"""
    if c["solver"] in ("ProximalGradient", "AndersonProximalGradient") and draw(st.booleans()):
        c["o"]["eps"] = [gen.pos(draw) for _ in range(12)]


@gen.mk
def objcase(draw):
    """stopping by the objective, whose magnitude is far from one"""
    name = draw(st.sampled_from(["ProximalPoint"] * 3 + ["ProximalGradient", "ProximalGradient(backtracking)", "AndersonProximalGradient"] + ["PPXA", "ConsensusADMM"] * 2))
    c = draw_case(draw, name)
    n = len(gen.arr(c["x0"]))
    s = draw(st.sampled_from([1e-2, 0.1, 1.0, 10.0, 100.0]))
    cplx = np.iscomplexobj(gen.arr(c["x0"]))
    c["g"] = prob.draw_g(draw, n, cplx, names=["L1", "L2", "Euclidean"] if cplx else ["L1", "L2", "Euclidean", "Huber", "L21"])
    c["x0"] = scaled(c["x0"], s)
    c["f"] = dict(c["f"], b=scaled(c["f"]["b"], s))
    c["frac"] = draw(st.sampled_from([0.02, 0.1, 0.3, 1.0])) * (s if name == "ProximalPoint" and c["g"]["op"] != "L2" else 1.0)
    if name != "ProximalPoint":
        c["frac"] = min(c["frac"], 1.0)
    more = name in ("PPXA", "ConsensusADMM")
    if more:        # stopping by the change of x
        c["g2"] = prob.draw_g(draw, n, cplx, names=["L1", "L2", "Euclidean"])
        if s == 10.0:
            s = 1e4
            c["x0"], c["f"] = scaled(c["x0"], 1e3), dict(c["f"], b=scaled(c["f"]["b"], 1e3))
        c["x1"] = scaled(c["x1"], s)
    weights(draw, c)
    c.update(niter=draw(st.integers(4, 60 if more else 20)), pick=draw(st.integers(0, 100)) / 100, rel=draw(st.sampled_from([0.5, 0.9, 1.1, 2.0])), by="f", mode="plain")
    return c


@gen.mk
def tolcase(draw):
    c = draw_case(draw, draw(st.sampled_from(TOL)))
    weights(draw, c)
    c.update(niter=draw(st.integers(3, 25)), pick=draw(st.integers(0, 100)) / 100, rel=draw(st.sampled_from([0.5, 0.9, 1.1, 2.0, 1e-6, 100.0])),
             by=draw(st.sampled_from(["x", "f"])), mode="plain")
    return c


def objective(c, x, k):
    p = c["g"]
    g = ops.get(p).val(p, x.reshape(ops.get(p).shape(p)))
    if c["solver"] == "ProximalPoint":
        return g
    e = c["o"].get("eps") if c["solver"] != "ProximalGradient(backtracking)" else None
    e = 1.0 if e is None else (e[k] if k < len(e) else e[-1]) if isinstance(e, list) else e
    return prob.F(c["f"]).val(x) + e * g


@sub("tolerance", tolcase, quick=600)
def tolerance(c):
    name, n = c["solver"], c["niter"]
    byobj = not name.startswith(("PPXA", "Cons", "Breg"))
    if byobj and ops.get(c["g"]).ind:
        return ""
    base, _ = go(c, n)
    xs = [v[0] for v in base.seen]
    if not all(np.all(np.isfinite(v)) for v in xs) or max(mx(v) for v in xs) > 1e6:
        return ""
    x0 = gen.arr(c["x0"])
    if byobj:
        F = [objective(c, x, k) for k, x in enumerate(xs)]
        crit = [1.0] + [abs(1 - b / a) if abs(a) > 1e-8 * max(map(abs, F)) else np.nan for a, b in zip(F, F[1:])]
    elif name.startswith("Breg") and c["by"] == "f":
        crit = [prob.F(c["f"]).val(x) for x in xs]
    else:
        if name == "PPXA" and c["two"]:
            w = c["o"]["w3"] or [1 / 3] * 3
            x0 = w[0] * x0 + (w[1] + w[2]) * gen.arr(c["x1"])
        size = nrm if name.startswith("Breg") else mx
        crit = [size(b - a) for a, b in zip([x0] + xs, xs)]
    ok = [v for v in crit if np.isfinite(v) and v > 1e-7]
    if not ok:
        return ""
    tol = ok[int(c["pick"] * (len(ok) - 1))] * c["rel"]
    if byobj:
        tol = min(tol, 0.9)
    tol = max(tol, 1e-6)
    stop = None
    for k, v in enumerate(crit):
        if k and byobj and F[k] == 0 and F[k - 1] == 0:      # no relative change: where it stops is left open, but the run goes through
            r, res = go(c, n, tol=tol)
            for a, b in zip(r.seen, xs):
                same(a[0], b, "%s with a tolerance and an objective of zero" % name, 1 + mx(x0) + max(mx(v) for v in xs), 1e-6)
            return name + " zero" if k else ""
        if not np.isfinite(v) or abs(v - tol) < 1e-5 * tol + 1e-9 + (0 if byobj else 1e-11 * max(mx(x) for x in xs)):
            return ""
        if v < tol:
            stop = k
            break
    t = tol if not name.startswith("Breg") else (tol, 0.0) if c["by"] == "x" else (0.0, tol)
    r, res = go(c, n, tol=t)
    want = len(xs) if stop is None else stop + 1
    if len(r.seen) != want:
        raise Violation("%s with tolerance %r runs %d iterations; its criterion takes the values %s, so it should stop after %d of %d" % (
            name, tol, len(r.seen), crit[:want + 1], want, n), name)
    if not np.array_equal(res[0], r.seen[-1][0]):
        raise Violation("%s with tolerance returns %s, the last callback saw %s" % (name, res[0], r.seen[-1][0]), name)
    same(res[0], xs[want - 1], "%s stopped by tolerance" % name, 1 + mx(x0) + max(mx(v) for v in xs), 1e-6)
    return name if stop is not None and 0 < stop < n - 1 else ""


@sub("objective_stop", objcase, quick=500)
def _(c):
    return tolerance(c)


@gen.mk
def realcase(draw):
    c = draw_case(draw, draw(st.sampled_from([k for k in SOLVERS if k != "Segment"])), True)
    c["mode"] = "plain"
    c["which"] = [k for k in ("x0", "x1", "z0", "w0") if isinstance(c[k], dict) and (k == "x0" or draw(st.booleans()))]
    if "lr" in c:
        c["which"] += draw(st.sampled_from([["lr.x"], ["lr.y"], ["lr.x", "lr.y"]]))
    return c


def put(c, which, how):
    c = dict(c)
    if "lr" in c:
        c["lr"] = dict(c["lr"])
    for k in which:
        d, k = (c["lr"], k[3:]) if k.startswith("lr.") else (c, k)
        d[k] = how(d[k]["re"])
    return c


@sub("real_start", realcase, quick=400)
def _(c):
    """a start without imaginary part, given as real or as complex array, is the same start of a complex problem"""
    name, n = c["solver"], c["niter"]
    a = put(c, c["which"], lambda v: {"re": v, "im": [0.0] * len(v)})
    if undecidable(a):
        return ""
    base, res = go(a, n)
    sc = 1 + max(max(mx(q) for q in v) for v in base.seen)
    if not np.isfinite(sc) or sc > 1e6 * (1 + mx(gen.arr(c["x0"]))):
        return ""
    try:
        r, v = go(put(c, c["which"], lambda v: v), n)
    except Exception as e:
        raise Violation("%s: complex problem with real %s fails (%s: %s); with the same values as complex numbers it works" % (name, c["which"], type(e).__name__, e), name)
    if name == "AdaptivePrimalDual" and len(r.seen) != len(base.seen):
        return ""
    what = "%s: complex problem with real %s" % (name, c["which"])
    for p, q in zip(v, res):
        if name == "ProximalGradient(backtracking)":
            if nrm(p - q) > 1e-4 * sc:
                raise Violation("%s returns %s, with the same values as complex numbers %s" % (what, p, q), name)
        else:
            close(p, q, what, sc)
    return name if len(base.seen) >= 2 and nrm(base.seen[-1][0] - base.seen[0][0]) > 0 and mx(np.imag(res[0])) > 1e-6 * sc else ""
