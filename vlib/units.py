"""The same problem in other units: all data multiplied by a power of two (exact in floating point), weights and bounds converted accordingly, gives the same history in
the new units.  Absolute thresholds, constants added to denominators and early exits do not survive this."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ops, prob
from .core import Violation
from .solvers import SOLVERS, draw_case, go
from .util import mx

KEYS = {"L1": {"sigma": 1, "g": 1}, "L2": {"b": 1, "q": 1}, "Euclidean": {"sigma": 1}, "L21": {"sigma": 1}, "Box": {"lo": 1, "hi": 1},
        "EuclideanBall": {"radius": 1, "center": 1}, "HalfSpace": {"b": 1}}
TOLS = {"ProximalPoint": 0, "ProximalGradient": 0, "AndersonProximalGradient": 0, "PPXA": 1, "ConsensusADMM": 1, "AdaptivePrimalDual": 1}


def times(v, u):
    if v is None:
        return None
    if isinstance(v, dict):
        return {k: times(q, u) for k, q in v.items()}
    return [times(q, u) for q in v] if isinstance(v, list) else v * u


def convert(c, u):
    d = dict(c)
    for k in ("x0", "x1", "z0", "w0"):
        d[k] = times(c[k], u)
    d["f"] = dict(c["f"], b=times(c["f"]["b"], u))
    for k in ("g", "g2", "ga"):
        p = dict(c[k])
        for q, e in KEYS[p["op"]].items():
            if q in p:
                p[q] = times(p[q], u ** e)
        d[k] = p
    return d


def strategy(names):
    @gen.mk
    def s(draw):
        c = draw_case(draw, draw(st.sampled_from(names)))
        cplx = np.iscomplexobj(gen.arr(c["x0"]))
        pool = [k for k in KEYS if not cplx or k in prob.G_CPLX]
        for k, v in (("g", "x0"), ("g2", "x0"), ("ga", None)):
            n = len(gen.arr(c["x0"])) if v else c["A"]["m"]
            c[k] = prob.draw_g(draw, n, cplx, names=pool)
        c["mode"] = "plain"
        c["u"] = draw(st.sampled_from([-40, -30, -20, -10, 10, 20, 30]))
        c["tol"] = draw(st.sampled_from([None, None, 1e-2, 1e-4, 1e-6]))
        return c
    return s


def check(c):
    name, n = c["solver"], c["niter"]
    e = c["u"] if name != "ADMML2" else max(-10, min(10, c["u"]))     # lsqr has absolute constants of its own
    u = 2.0 ** e
    t = c["tol"] if name in TOLS and (TOLS[name] or not ops.get(c["g"]).ind) else None     # indicators are true/false inside of an objective
    base, res = go(c, n, **({} if t is None else {"tol": t}))
    sc = max([max(mx(q) for q in v) for v in base.seen] + [mx(q) for q in res])
    if not np.isfinite(sc) or sc > 1e6 * (1 + mx(gen.arr(c["x0"]))):
        return ""
    r, got = go(convert(c, u), n, **({} if t is None else {"tol": t * u ** TOLS[name]}))
    what = "%s on the same problem in other units (factor 2^%d, tol=%r)" % (name, e, t)
    rt = 1e-4 if name in ("ProximalGradient(backtracking)", "ADMML2") else 1e-8
    if len(r.seen) != len(base.seen):
        raise Violation("%s runs %d iterations instead of %d" % (what, len(r.seen), len(base.seen)), name)
    for k, (a, b) in enumerate(list(zip(base.seen, r.seen)) + [(res, got)]):
        for p, q in zip(a, b):
            if p.shape != q.shape or not np.max(np.abs(p - q / u), initial=0.0) <= rt * sc:
                raise Violation("%s: iterate %d is %s times the factor instead of %s" % (what, k, q / u, p), name)
    moved = len(base.seen) >= 2 and mx(base.seen[-1][0] - base.seen[0][0]) > 1e-6 * sc
    return name if moved else ""


def names(*want):
    return [k for k in SOLVERS if k in want]
