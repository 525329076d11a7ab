"""Every solver of the library behind one interface, driven by a drawn case (C24 and the unit changes of C19, C21, C22, C23, C27)."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from pyproximal.optimization import bregman, palm, pnp, primal, primaldual, segmentation
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from . import gen, ops, prob, recur
from .core import Violation
from .util import mx, same

G = ["L1", "L1", "L2", "Euclidean", "Huber", "L21", "Box", "EuclideanBall", "HalfSpace", "L1Ball"]


class Ctx:
    """one run of a solver: keeps every array handed over and everything the callback saw"""

    def __init__(self, c, niter, cb=True, show=False, mode="plain", tol=None):
        self.c, self.n, self.cb, self.show, self.mode, self.tol = c, niter, cb, show, mode, tol
        self.given, self.seen = [], []

    def arr(self, v):
        a = gen.arr(v) if isinstance(v, (list, dict)) else np.array(v)
        if self.mode == "strided":
            b = np.zeros(2 * a.size + 1, dtype=a.dtype)
            b[1::2] = a
            a = b[1::2]
        if self.mode == "readonly":
            a.setflags(write=False)
        self.given.append((a, a.copy()))
        return a

    def keep(self, a):
        self.given.append((a, a.copy()))
        return a

    def callback(self, *v):
        self.seen.append(tuple(np.array(q, copy=True) for q in v))

    def kw(self, name="callback", **more):
        k = dict(more)
        if self.cb:
            k[name] = self.callback
        k["show"] = self.show
        return k

    def f(self, spec=None):
        f = prob.F(spec or self.c["f"])
        b = self.keep(f.b)
        return pp.L2(Op=prob.linop(dict((spec or self.c["f"])["a"], form="explicit"), f.A), b=b, sigma=f.sigma)

    def g(self, k="g"):
        return ops.build(self.c[k])

    def A(self):
        return prob.linop(self.c["A"], prob.dense(self.c["A"]))

    def tau(self, frac=1.0):
        f = prob.F(self.c["f"])
        return frac * self.c["frac"] / max(f.L, 1e-3)

    def opt(self, **names):
        """arguments drawn in the case (None = use the default)"""
        return {k: v for k, v in ((k, self.c["o"].get(v)) for k, v in names.items()) if v is not None}


def eps(r):
    e = r.c["o"].get("eps")
    if isinstance(e, list):
        return {"epsg": r.keep(np.array(e[:r.n] if r.n <= len(e) else e + [e[-1]] * (r.n - len(e))))}
    return {} if e is None else {"epsg": e}


def PPA(r):
    return primal.ProximalPoint(r.g(), r.arr(r.c["x0"]), r.c["frac"], niter=r.n, tol=r.tol, **r.kw())


def PG(r):
    return primal.ProximalGradient(r.f(), r.g(), x0=r.arr(r.c["x0"]), tau=r.tau(), niter=r.n, tol=r.tol, **r.opt(acceleration="acc", eta="eta"), **eps(r), **r.kw())


def PGB(r):
    return primal.ProximalGradient(r.f(), r.g(), x0=r.arr(r.c["x0"]), tau=None, niter=r.n, tol=r.tol, **r.opt(acceleration="acc", beta="beta"), **r.kw())


def APG(r):
    return primal.AndersonProximalGradient(r.f(), r.g(), x0=r.arr(r.c["x0"]), tau=r.tau(), niter=r.n, tol=r.tol, **r.opt(nhistory="nh"), epsr=1e-2, **eps(r), **r.kw())


def GPG(r):
    w = r.c["o"].get("w")
    return primal.GeneralizedProximalGradient([r.f()], [r.g(), r.g("g2")], x0=r.arr(r.c["x0"]), tau=r.tau(), niter=r.n,
                                              weights=None if w is None else r.keep(np.array(w)), **r.opt(acceleration="acc"), **r.kw())


def HQS(r):
    z0 = r.c["z0"]
    t = r.c["o"].get("taus")
    t = r.c["frac"] if t is None else r.keep(np.array((t * 30)[:r.n]))
    return primal.HQS(r.f(), r.g(), r.arr(r.c["x0"]), t, niter=r.n, z0=None if z0 is None else r.arr(z0), callbackz=r.c["two"], **r.opt(gfirst="gfirst"), **r.kw())


def ADMM(r):
    z0 = r.c["z0"]
    return primal.ADMM(r.f(), r.g(), r.arr(r.c["x0"]), r.c["frac"], niter=r.n, z0=None if z0 is None else r.arr(z0), callbackz=r.c["two"], **r.opt(gfirst="gfirst"), **r.kw())


LS = dict(iter_lim=60, atol=1e-13, btol=1e-13)


def ADMML2(r):
    f = prob.F(r.c["f"])
    z0 = r.c["w0"]
    return primal.ADMML2(r.g("ga"), prob.linop(r.c["f"]["a"], f.A), r.keep(f.b), r.A(), r.arr(r.c["x0"]), r.c["frac"], niter=r.n, z0=None if z0 is None else r.arr(z0),
                         **r.opt(gfirst="gfirst"), **r.kw(), **LS)


def LADMM(r):
    L = max(np.linalg.norm(prob.dense(r.c["A"]), 2) ** 2, 1e-2)
    z0 = r.c["w0"]
    return primal.LinearizedADMM(r.f(), r.g("ga"), r.A(), r.arr(r.c["x0"]), 1.0, 0.9 / L, niter=r.n, z0=None if z0 is None else r.arr(z0), **r.kw())


def TWIST(r):
    f = prob.F(r.c["f"])
    return primal.TwIST(r.g(), prob.linop(r.c["f"]["a"], f.A), r.keep(f.b), r.arr(r.c["x0"]), alpha=1.2, beta=0.7, eigs=(1.0, 0.1), niter=r.n, **r.kw())


def DR(r):
    return primal.DouglasRachfordSplitting(r.f(), r.g(), r.arr(r.c["x0"]), r.c["frac"], niter=r.n, callbacky=r.c["two"], **r.opt(gfirst="gfirst", eta="eta"), **r.kw())


def PPXA(r):
    w = r.c["o"].get("w3")
    x0 = r.arr(r.c["x0"])
    if r.c["two"]:
        x0 = [x0, r.arr(r.c["x1"]), r.arr(r.c["x1"])]
        if r.c["o"].get("z"):
            x0 = r.arr(np.stack(x0)) if r.mode != "strided" else r.keep(np.asfortranarray(np.stack(x0)))
    return primal.PPXA([r.f(), r.g(), r.g("g2")], x0, r.c["frac"], niter=r.n, tol=r.tol, weights=None if w is None else r.keep(np.array(w)), **r.opt(eta="eta"), **r.kw())


def CADMM(r):
    return primal.ConsensusADMM([r.f(), r.g(), r.g("g2")], r.arr(r.c["x0"]), r.c["frac"], niter=r.n, tol=r.tol, **r.kw())


def steps(r):
    L = max(np.linalg.norm(prob.dense(r.c["A"]), 2), 1e-2)
    return r.c["frac"], 0.9 / L ** 2 / r.c["frac"]


def PD(r):
    t, m = steps(r)
    if r.c["o"].get("sched"):
        t, m = r.keep(np.full(60, t)), r.keep(np.full(60, m))
    o = r.c["o"]
    return primaldual.PrimalDual(r.f(), r.g("ga"), r.A(), r.arr(r.c["x0"]), t, m, y0=None if r.c["w0"] is None else r.arr(r.c["w0"]),
                                 z=r.arr(r.c["x1"]) if o.get("z") else None, niter=r.n, callbacky=r.c["two"], returny=r.c["two"], **r.opt(gfirst="gfirst", theta="theta"), **r.kw())


def APD(r):
    t, m = steps(r)
    x, s = primaldual.AdaptivePrimalDual(r.f(), r.g("ga"), r.A(), r.arr(r.c["x0"]), t, m, z=r.arr(r.c["x1"]) if r.c["o"].get("z") else None, niter=r.n,
                                         tol=1e-300 if r.tol is None else r.tol, **r.kw())
    return x


def breg(inner, **more):
    def run(r):
        extra = more(r) if callable(more) else more
        k = dict(extra)
        if inner is primal.LinearizedADMM:
            L = max(np.linalg.norm(prob.dense(r.c["A"]), 2) ** 2, 1e-2)
            k.update(A=r.A(), tau=1.0, mu=0.9 / L)
        elif inner is primal.ADMM:
            k.update(tau=r.c["frac"])
        else:
            k.update(tau=r.tau())
        tx, tf = (0.0, 0.0) if r.tol is None else r.tol
        return bregman.Bregman(r.f(), r.g("ga" if inner is primal.LinearizedADMM else "g"), r.arr(r.c["x0"]), inner, alpha=r.c["frac"], niterouter=r.n, warm=r.c["two"],
                               tolx=tx, tolf=tf, niter=5, **k, **r.kw("bregcallback"))
    return run


def lr(r):
    q = r.c["lr"]
    n, k, m = q["n"], q["k"], q["m"]
    x, y, d = r.arr(q["x"]), r.arr(q["y"]), r.arr(q["d"])
    return LowRankFactorizedMatrix(x.reshape(n, k), y.reshape(k, m), d), x, y


def PALM(r):
    H, x, y = lr(r)
    o = r.c["o"]
    g = o.get("gamma")
    return palm.PALM(H, pp.L1(sigma=0.3) if o.get("z") else None, pp.Euclidean(sigma=0.2), x, y, gammaf=g, gammag=g, niter=r.n, **r.kw())


def IPALM(r):
    H, x, y = lr(r)
    o = r.c["o"]
    g = o.get("gamma")
    return palm.iPALM(H, pp.L1(sigma=0.3) if o.get("z") else None, pp.Euclidean(sigma=0.2), x, y, gammaf=g, gammag=g, a=(0.3, 0.5), niter=r.n, **r.kw())


def PNP(r):
    def den(x, tau):
        return x / (1 + tau)
    s = r.c["o"].get("pnp") or "admm"
    x0 = r.arr(r.c["x0"])
    k = r.kw()
    dims = (x0.size,)
    if s == "admm":
        return pnp.PlugAndPlay(r.f(), den, dims, x0, solver=primal.ADMM, tau=r.c["frac"], niter=r.n, callbackz=r.c["two"], **k)
    if s == "hqs":
        return pnp.PlugAndPlay(r.f(), den, dims, x0, solver=primal.HQS, tau=r.c["frac"], niter=r.n, callbackz=r.c["two"], **k)
    if s == "dr":
        return pnp.PlugAndPlay(r.f(), den, dims, x0, solver=primal.DouglasRachfordSplitting, tau=r.c["frac"], niter=r.n, callbacky=r.c["two"], **k)
    return pnp.PlugAndPlay(r.f(), den, dims, x0, solver=primal.ProximalGradient, tau=r.tau(), niter=r.n, **k)


def SEG(r):
    q = r.c["seg"]
    y = r.keep(np.array(q["y"]).reshape(q["dims"]))
    cl = r.arr(q["cl"])
    k = {}
    if q["cs"] is not None:
        k["clsigmas"] = r.arr(q["cs"])
    if q["z"] is not None:
        k["z"] = r.arr(q["z"])
    if q["x0"] is not None:
        k["x0"] = r.arr(q["x0"])
    return segmentation.Segment(y, cl, 1.0, 0.3, niter=r.n, **k, **r.kw())


SOLVERS = {"ProximalPoint": PPA, "ProximalGradient": PG, "ProximalGradient(backtracking)": PGB, "AndersonProximalGradient": APG, "GeneralizedProximalGradient": GPG,
           "HQS": HQS, "ADMM": ADMM, "ADMML2": ADMML2, "LinearizedADMM": LADMM, "TwIST": TWIST, "DouglasRachfordSplitting": DR, "PPXA": PPXA,
           "ConsensusADMM": CADMM, "PrimalDual": PD, "AdaptivePrimalDual": APD, "Bregman(PG)": breg(primal.ProximalGradient), "Bregman(ADMM)": breg(primal.ADMM),
           "Bregman(LADMM)": breg(primal.LinearizedADMM), "PALM": PALM, "iPALM": IPALM, "PlugAndPlay": PNP, "Segment": SEG}
REAL = ["Segment", "TwIST", "AndersonProximalGradient"]
TWO = {"HQS", "ADMM", "DouglasRachfordSplitting", "PrimalDual", "PALM", "iPALM"}     # what the callback sees besides x is also returned


def draw_case(draw, name, cplx=None):
    if cplx is None:
        cplx = name not in ("Segment", "AndersonProximalGradient") and draw(st.integers(0, 3)) == 0
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    f = prob.draw_f(draw, n, cplx, draw(st.booleans()))
    GS = prob.G_CPLX if cplx else G
    c = {"solver": name, "f": f, "g": prob.draw_g(draw, n, cplx, names=GS), "g2": prob.draw_g(draw, n, cplx, names=GS), "ga": prob.draw_g(draw, m, cplx, names=GS),
         "A": prob.draw_lin(draw, n, m, cplx), "x0": gen.vec(draw, n, cplx, style=(8, 2), scale=False), "x1": gen.vec(draw, n, cplx, style=(8, 2), scale=False),
         "z0": gen.vec(draw, n, cplx, style=(8, 2), scale=False) if draw(st.booleans()) else None,
         "w0": gen.vec(draw, m, cplx, style=(8, 2), scale=False) if draw(st.booleans()) else None,
         "two": draw(st.booleans()), "frac": draw(st.sampled_from([0.3, 1.0, 0.7])), "niter": draw(st.sampled_from([1, 2, 3, 5, 9, 10, 11, 12, 19, 21, 25, 30, 47])),
         "cut": draw(st.integers(1, 8)), "mode": draw(st.sampled_from(["plain", "readonly", "readonly", "strided"]))}
    w = [draw(st.integers(1, 4)) for _ in range(3)]
    c["o"] = {"acc": draw(st.sampled_from([None, "vandenberghe", "fista"])), "eta": draw(st.sampled_from([None, 0.7])), "beta": draw(st.sampled_from([None, 0.3])),
              "eps": draw(st.sampled_from([None, 0.5, "list"])), "nh": draw(st.integers(2, 5)), "w": [w[0] / (w[0] + w[1]), w[1] / (w[0] + w[1])] if draw(st.booleans()) else None,
              "w3": [a / sum(w) for a in w] if draw(st.booleans()) else None, "gfirst": draw(st.sampled_from([None, True, False])), "taus": draw(st.sampled_from([None, [0.5, 1.0, 2.0]])),
              "theta": draw(st.sampled_from([None, 0.5])), "z": draw(st.booleans()), "sched": draw(st.booleans()), "gamma": draw(st.sampled_from([None, 1.0, 2.0])),
              "pnp": draw(st.sampled_from(["admm", "hqs", "dr", "pg"]))}
    if c["o"]["eps"] == "list":
        c["o"]["eps"] = [gen.pos(draw) for _ in range(4)]
    if c["o"]["acc"]:
        c["o"]["eta"] = None
    if "PALM" in name:
        q = {"n": draw(st.integers(1, 3)), "k": draw(st.integers(1, 2)), "m": draw(st.integers(1, 3))}
        for key, sz in (("x", q["n"] * q["k"]), ("y", q["k"] * q["m"]), ("d", q["n"] * q["m"])):
            q[key] = gen.vec(draw, sz, cplx, style=(8, 2), scale=False)
        c["lr"] = q
    if name == "Segment":
        dims = draw(st.lists(st.integers(2, 4), min_size=1, max_size=3))
        k = draw(st.integers(2, 3))
        sz = int(np.prod(dims))
        c["seg"] = {"dims": dims, "y": gen.rvec(draw, sz, style=(8, 2), scale=False), "cl": sorted(set(gen.rvec(draw, k, style=(8, 2), scale=False))),
                    "cs": None, "z": None, "x0": None}
        k = len(c["seg"]["cl"])
        if draw(st.booleans()):
            c["seg"]["cs"] = [draw(st.integers(1, 4)) / 2 for _ in range(k)]
        if draw(st.booleans()):
            c["seg"]["z"] = gen.rvec(draw, sz * k, style=(8, 2), scale=False)
        if draw(st.booleans()):
            c["seg"]["x0"] = gen.rvec(draw, sz * k, style=(8, 2), scale=False)
    return c


def go(c, n, **k):
    r = Ctx(c, n, **k)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
            res = SOLVERS[c["solver"]](r)
    except Exception as e:
        if r.show or r.mode != "plain" or r.cb is False:
            # does the plain run work?
            p = Ctx(c, n, cb=True)
            try:
                with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                    SOLVERS[c["solver"]](p)
            except Exception:
                raise e
            raise Violation("%s fails with show=%s, inputs %s, callback %s (%s: %s), while the plain run works" % (
                c["solver"], r.show, r.mode, r.cb, type(e).__name__, e), c["solver"])
        raise
    for a, b in r.given:
        if a.dtype != b.dtype or not np.array_equal(a, b):
            raise Violation("%s modifies an array it was given: %s became %s" % (c["solver"], b, a), c["solver"])
    if not r.show and buf.getvalue().strip():
        raise Violation("%s prints without show" % c["solver"], c["solver"])
    return r, tuple(np.asarray(v) for v in (res if isinstance(res, tuple) else (res,)))


def undecidable(c):
    """vanishing factor constants give no step; such PALM histories are not defined"""
    q = c.get("lr")
    if q and c["o"].get("gamma") is not None:
        R = recur.LowRank(q["n"], q["k"], q["m"], gen.arr(q["d"]))
        g = c["o"]["gamma"]
        a = (0.3, 0.5) if c["solver"] == "iPALM" else (0.0, 0.0)
        its, _ = recur.palm(R, pp.L1(sigma=0.3).prox if c["o"].get("z") else None, pp.Euclidean(sigma=0.2).prox, gen.arr(q["x"]), gen.arr(q["y"]), g, g, 0.5, 100,
                            c["niter"] + 1, a)
        return len(its) < c["niter"] + 1
    return False


def close(a, b, what, sc):
    if a.shape != b.shape:
        raise Violation("%s: shapes %s and %s" % (what, a.shape, b.shape))
    if a.dtype.kind == "i" or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return
    same(a, b, what, sc + mx(b), 1e-7)
