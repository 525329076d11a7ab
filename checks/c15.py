"""C15 invalid steps and parameters."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal.optimization import primal, primaldual
from vlib import gen, ops, zoo
from vlib.core import Violation, sub
from vlib.util import mx

RULE = ("cases: every operator (base, composed, stacked, adjoint, chained), prox and dual prox, positional or keyword step, "
        "step zero/negative scalar of any type or array with one bad entry; constructors and solvers with one documented-invalid "
        "argument among valid ones; non-trivial: the same call with the valid argument is accepted (checked in the same case)")
ASSUMPTIONS = ["a rejection is any of ValueError, NotImplementedError, KeyError, TypeError for parameters; ValueError for steps"]

BAD = [0, 0.0, -0.0, -1, -1e-12, -1e300, -2.5]


@gen.mk
def steps(draw):
    z = zoo.draw(draw)
    c = {"z": z, "x": zoo.x(draw, z), "what": draw(st.sampled_from(["prox", "proxdual", "H.prox"])), "kw": draw(st.booleans()),
         "bad": draw(st.sampled_from(BAD)), "form": draw(st.sampled_from(["scalar", "np", "0d", "array", "array1"])),
         "i": draw(st.integers(0, 10**6)), "good": gen.pos(draw), "twice": draw(st.booleans())}
    if z["z"] == "reg" and hasattr(ops.get(z["p"]), "maxtau") and ops.get(z["p"]).maxtau(z["p"]) < np.inf:
        c["good"] = min(c["good"], ops.get(z["p"]).maxtau(z["p"]))
    return c


def wrap(v, form, n, i, good):
    if form == "scalar":
        return v
    if form == "np":
        return np.float64(v)
    if form == "0d":
        return np.array(float(v))
    if form == "array1":
        return np.array([float(v)])
    a = np.full(n, float(good))
    a[i % n] = v
    return a


@sub("steps", steps, quick=1200)
def _(c):
    z = c["z"]
    x = gen.arr(c["x"], z["shape"])
    op = zoo.build(z)
    t = wrap(c["bad"], c["form"], x.size if x.ndim == 1 else x.shape[-1], c["i"], c["good"])
    h = op.H if c["what"] == "H.prox" else op
    f = h.proxdual if c["what"] == "proxdual" else h.prox
    x0 = x.copy()
    for _ in range(2 if c["twice"] else 1):
        try:
            y = f(x, tau=t) if c["kw"] else f(x, t)
        except ValueError:
            continue
        raise Violation("%s of %s accepts tau=%r and returns %r" % (c["what"], zoo.name(z), t, y))
    if not np.array_equal(x, x0):
        raise Violation("a rejected %s of %s changed its input" % (c["what"], zoo.name(z)))
    # every positive step is accepted
    if z["z"] in ("SVP",) and z["p"]["op"] == "SCAD":
        return ""
    if z["z"] == "reg" and z["p"]["op"] == "SCAD" and c["what"] != "prox":
        return zoo.name(z)
    y = f(x, tau=c["good"]) if c["kw"] else f(x, c["good"])
    if not isinstance(y, np.ndarray) or y.size != x.size:
        raise Violation("%s of %s with tau=%r returns %r" % (c["what"], zoo.name(z), c["good"], y))
    return (z["z"] if z["z"] != "reg" else z["p"]["op"]) + "-" + c["what"]


@gen.mk
def tiny(draw):
    z = zoo.draw(draw, kinds=("reg", "tree"), names=[q for q in sorted(ops.REG) if q not in ("SCAD",)])
    return {"z": z, "x": zoo.x(draw, z), "tau": draw(st.sampled_from([1e-300, 1e-30, 1e-12, 1e-6, 1e3, 1e6, 1e12])),
            "form": draw(st.sampled_from(["scalar", "np", "0d"]))}


@sub("any_positive_step", tiny, quick=400)
def _(c):
    """extreme positive steps are accepted; a vanishing step leaves the points of the domain in place"""
    z = c["z"]
    x = gen.arr(c["x"], z["shape"])
    tau = wrap(c["tau"], c["form"], x.size, 0, 1.0)
    y = zoo.build(z).prox(x.copy(), tau)
    if not np.all(np.isfinite(y)):
        raise Violation("prox of %s with tau=%r returns %s" % (zoo.name(z), tau, y))
    return zoo.name(z) if z["z"] == "reg" else "tree"


REJ = (ValueError, NotImplementedError, KeyError, TypeError, AssertionError)


def neg(draw):
    return draw(st.sampled_from([-1.0, -1e-9, -100.0]))


@gen.mk
def params(draw):
    k = draw(st.sampled_from(sorted(PARAMS)))
    n = draw(st.integers(2, 5))
    return {"k": k, "n": n, "neg": neg(draw), "nonpos": draw(st.sampled_from([0.0, -1.0, -1e-9])), "pos": gen.pos(draw),
            "x": gen.rvec(draw, n, scale=False), "m": draw(st.integers(1, 5)), "s": draw(st.sampled_from(["", "foo", "NUMPY", "cuda2", "none"])),
            "d": draw(st.integers(1, 3))}


def A_(m, n):
    return pylops.MatrixMult(np.arange(1.0, m * n + 1).reshape(m, n))


# name -> (call with an invalid argument, the same call with a valid one)
PARAMS = {
    "Log.sigma": (lambda c: pp.Log(c["neg"], c["pos"]), lambda c: pp.Log(c["pos"], c["pos"])),
    "Log.gamma": (lambda c: pp.Log(c["pos"], c["neg"]), lambda c: pp.Log(c["pos"])),
    "Log1.delta": (lambda c: pp.Log1(c["pos"], c["neg"]), lambda c: pp.Log1(c["pos"], c["pos"])),
    "ETP.sigma": (lambda c: pp.ETP(c["neg"], c["pos"]), lambda c: pp.ETP(c["pos"])),
    "ETP.gamma": (lambda c: pp.ETP(c["pos"], c["nonpos"]), lambda c: pp.ETP(c["pos"], c["pos"])),
    "Geman.sigma": (lambda c: pp.Geman(c["neg"], c["pos"]), lambda c: pp.Geman(c["pos"])),
    "Geman.gamma": (lambda c: pp.Geman(c["pos"], c["nonpos"]), lambda c: pp.Geman(c["pos"], c["pos"])),
    "SCAD.sigma": (lambda c: pp.SCAD(c["neg"], 3.7), lambda c: pp.SCAD(c["pos"])),
    "SCAD.a": (lambda c: pp.SCAD(c["pos"], [2.0, 1.5, -3.0][c["d"] - 1]), lambda c: pp.SCAD(c["pos"], 2.0 + c["pos"])),
    "Quadratic.Op": (lambda c: pp.Quadratic(A_(c["n"], c["n"] + c["d"]) if c["n"] % 2 else A_(c["n"] + c["d"], c["n"])), lambda c: pp.Quadratic(A_(c["n"], c["n"]))),
    "Simplex.dims": (lambda c: pp.Simplex(c["n"] ** 3, 1.0, dims=(c["n"],) * (3 if c["d"] == 1 else 1)),
                     lambda c: pp.Simplex(c["n"] ** 2, 1.0, dims=(c["n"],) * 2)),
    "Simplex.engine": (lambda c: pp.Simplex(c["n"], 1.0, engine=c["s"]), lambda c: pp.Simplex(c["n"], 1.0, engine="numpy")),
    "L2.solver": (lambda c: pp.L2(Op=A_(3, c["n"]), b=np.ones(3), solver=c["s"]).prox(np.ones(c["n"]), 1.0),
                  lambda c: pp.L2(Op=A_(3, c["n"]), b=np.ones(3), solver="cg").prox(np.ones(c["n"]), 1.0)),
    "VStack.none": (lambda c: pp.VStack([pp.L1(), pp.L2()]), lambda c: pp.VStack([pp.L1(), pp.L2()], nn=[1, c["n"]])),
    "VStack.size": (lambda c: pp.VStack([pp.L1(), pp.L2()], nn=[1, c["n"] - 1])(np.ones(c["n"] + c["d"])),
                    lambda c: pp.VStack([pp.L1(), pp.L2()], nn=[1, c["n"] - 1])(np.ones(c["n"]))),
    "VStack.proxsize": (lambda c: pp.VStack([pp.L1(), pp.L2()], nn=[1, c["n"] - 1]).prox(np.ones(c["n"] + c["d"]), 1.0),
                        lambda c: pp.VStack([pp.L1(), pp.L2()], nn=[1, c["n"] - 1]).prox(np.ones(c["n"]), 1.0)),
    "VStack.gradsize": (lambda c: pp.VStack([pp.L2(), pp.L2()], nn=[1, c["n"] - 1]).grad(np.ones(c["n"] + c["d"])),
                        lambda c: pp.VStack([pp.L2(), pp.L2()], nn=[1, c["n"] - 1]).grad(np.ones(c["n"]))),
    "Sum.empty": (lambda c: pp.Sum([], weights=[]).prox(np.ones(c["n"]), 1.0),
                  lambda c: pp.Sum([pp.L1()]).prox(np.ones(c["n"]), 1.0)),
    "Generic.empty": (lambda c: pp.GenericIntersectionProx([]).prox(np.ones(c["n"]), 1.0),
                      lambda c: pp.GenericIntersectionProx([lambda x: x]).prox(np.ones(c["n"]), 1.0)),
    "add.scalar": (lambda c: pp.L1() + c["pos"], lambda c: pp.L1() + np.ones(c["n"])),
    "add.string": (lambda c: pp.L1() + c["s"], lambda c: pp.L1() + np.ones(c["n"])),
    "mul.string": (lambda c: pp.L1().postcomposition(c["s"]), lambda c: c["pos"] * pp.L1()),
    "mul.array": (lambda c: pp.L1().postcomposition(np.ones(c["n"])), lambda c: pp.L1().postcomposition(c["pos"])),
    "pre.string": (lambda c: pp.L1().precomposition(c["s"], 1.0), lambda c: pp.L1().precomposition(c["pos"], 1.0)),
    "pre.b": (lambda c: pp.L1().precomposition(c["pos"], c["s"]), lambda c: pp.L1().precomposition(c["pos"], 1.0)),
}


@sub("constructors", params, quick=500)
def _(c):
    bad, good = PARAMS[c["k"]]
    good(c)
    try:
        r = bad(c)
    except REJ:
        return c["k"]
    raise Violation("%s: an invalid argument is accepted, result %r" % (c["k"], r))


def f2(n):
    return pp.L2(b=np.arange(1.0, n + 1))


def run_pg(c, **kw):
    return primal.ProximalGradient(f2(c["n"]), pp.L1(), x0=np.zeros(c["n"]), tau=0.5, niter=3, **kw)


def run_gpg(c, nf, ng, weights=None, acceleration=None):
    n = c["n"]
    return primal.GeneralizedProximalGradient([f2(n)] * nf, [pp.L1()] * ng, x0=np.zeros(n), tau=0.3, weights=weights, niter=3,
                                              acceleration=acceleration)


SOLV = {
    "PG.acceleration": (lambda c: run_pg(c, acceleration=c["s"] or "x"), lambda c: run_pg(c, acceleration=["vandenberghe", "fista", None][c["d"] - 1])),
    "APG.acceleration": (lambda c: primal.AcceleratedProximalGradient(f2(c["n"]), pp.L1(), x0=np.zeros(c["n"]), tau=0.5, niter=3, acceleration=c["s"] or "x"),
                         lambda c: primal.AcceleratedProximalGradient(f2(c["n"]), pp.L1(), x0=np.zeros(c["n"]), tau=0.5, niter=3)),
    "GPG.acceleration": (lambda c: run_gpg(c, 1, 2, acceleration=c["s"] or "x"), lambda c: run_gpg(c, 1, 2, acceleration="fista")),
    "GPG.weights_size": (lambda c: run_gpg(c, c["d"], c["m"], weights=np.ones(c["m"] + c["d"]) / (c["m"] + c["d"])),
                         lambda c: run_gpg(c, c["d"], c["m"], weights=np.ones(c["m"]) / c["m"])),
    "GPG.weights_sum": (lambda c: run_gpg(c, c["d"], c["m"], weights=np.ones(c["m"]) * [0.3, 2.0, -1.0][c["d"] - 1]),
                        lambda c: run_gpg(c, c["d"], c["m"])),
    "ADMM.guess": (lambda c: primal.ADMM(f2(c["n"]), pp.L1(), None, 1.0, niter=2), lambda c: primal.ADMM(f2(c["n"]), pp.L1(), None, 1.0, niter=2, z0=np.zeros(c["n"]))),
    "HQS.guess": (lambda c: primal.HQS(f2(c["n"]), pp.L1(), None, 1.0, niter=2), lambda c: primal.HQS(f2(c["n"]), pp.L1(), np.zeros(c["n"]), 1.0, niter=2)),
    "ADMML2.guess": (lambda c: primal.ADMML2(pp.L1(), A_(3, c["n"]), np.ones(3), pylops.Identity(c["n"]), None, 1.0, niter=2),
                     lambda c: primal.ADMML2(pp.L1(), A_(3, c["n"]), np.ones(3), pylops.Identity(c["n"]), np.zeros(c["n"]), 1.0, niter=2)),
    "ADMML2.z_only": (lambda c: primal.ADMML2(pp.L1(), A_(3, c["n"]), np.ones(3), pylops.Identity(c["n"]), None, 1.0, niter=2, z0=np.zeros(c["n"])),
                      lambda c: primal.ADMML2(pp.L1(), A_(3, c["n"]), np.ones(3), pylops.Identity(c["n"]), np.zeros(c["n"]), 1.0, niter=2, z0=np.zeros(c["n"]))),
    "LADMM.guess": (lambda c: primal.LinearizedADMM(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), None, 1.0, 0.5, niter=2),
                    lambda c: primal.LinearizedADMM(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), np.zeros(c["n"]), 1.0, 0.5, niter=2)),
    "LADMM.z_only": (lambda c: primal.LinearizedADMM(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), None, 1.0, 0.5, niter=2, z0=np.zeros(c["n"])),
                     lambda c: primal.LinearizedADMM(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), np.zeros(c["n"]), 1.0, 0.5, niter=2, z0=np.zeros(c["n"]))),
    "PPA.tau": (lambda c: primal.ProximalPoint(pp.L1(), np.ones(c["n"]), c["nonpos"], niter=3, tol=None), lambda c: primal.ProximalPoint(pp.L1(), np.ones(c["n"]), c["pos"], niter=3, tol=None)),
    "PG.tau": (lambda c: primal.ProximalGradient(f2(c["n"]), pp.L1(), x0=np.zeros(c["n"]), tau=c["nonpos"], niter=3, tol=None),
               lambda c: primal.ProximalGradient(f2(c["n"]), pp.L1(), x0=np.zeros(c["n"]), tau=0.5, niter=3, tol=None)),
    "ADMM.tau": (lambda c: primal.ADMM(f2(c["n"]), pp.L1(), np.zeros(c["n"]), c["nonpos"], niter=2), lambda c: primal.ADMM(f2(c["n"]), pp.L1(), np.zeros(c["n"]), c["pos"], niter=2)),
    "HQS.tau": (lambda c: primal.HQS(f2(c["n"]), pp.L1(), np.zeros(c["n"]), c["nonpos"], niter=2), lambda c: primal.HQS(f2(c["n"]), pp.L1(), np.zeros(c["n"]), c["pos"], niter=2)),
    "HQS.tau_array": (lambda c: primal.HQS(f2(c["n"]), pp.L1(), np.zeros(c["n"]), np.array([1.0, c["nonpos"], 1.0]), niter=3),
                      lambda c: primal.HQS(f2(c["n"]), pp.L1(), np.zeros(c["n"]), np.array([1.0, c["pos"], 1.0]), niter=3)),
    "DRS.tau": (lambda c: primal.DouglasRachfordSplitting(f2(c["n"]), pp.L1(), np.zeros(c["n"]), c["nonpos"], niter=2),
                lambda c: primal.DouglasRachfordSplitting(f2(c["n"]), pp.L1(), np.zeros(c["n"]), c["pos"], niter=2)),
    "PPXA.tau": (lambda c: primal.PPXA([f2(c["n"]), pp.L1()], np.zeros(c["n"]), c["nonpos"], niter=2),
                 lambda c: primal.PPXA([f2(c["n"]), pp.L1()], np.zeros(c["n"]), c["pos"], niter=2)),
    "CADMM.tau": (lambda c: primal.ConsensusADMM([f2(c["n"]), pp.L1()], np.zeros(c["n"]), c["nonpos"], niter=2),
                  lambda c: primal.ConsensusADMM([f2(c["n"]), pp.L1()], np.zeros(c["n"]), c["pos"], niter=2)),
    "PD.tau": (lambda c: primaldual.PrimalDual(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), np.zeros(c["n"]), c["nonpos"], 0.5, niter=2),
               lambda c: primaldual.PrimalDual(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), np.zeros(c["n"]), 0.5, 0.5, niter=2)),
    "PD.mu": (lambda c: primaldual.PrimalDual(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), np.zeros(c["n"]), 0.5, c["nonpos"], niter=2),
              lambda c: primaldual.PrimalDual(f2(c["n"]), pp.L1(), pylops.Identity(c["n"]), np.zeros(c["n"]), 0.5, 0.5, niter=2)),
}


@gen.mk
def solvers(draw):
    n = draw(st.integers(2, 5))
    return {"k": draw(st.sampled_from(sorted(SOLV))), "n": n, "nonpos": draw(st.sampled_from([0.0, -1.0, -1e-9])), "pos": gen.pos(draw),
            "m": draw(st.integers(1, 4)), "d": draw(st.integers(1, 3)), "s": draw(st.sampled_from(["", "foo", "Fista", "nesterov", "FISTA2"]))}


@sub("solvers", solvers, quick=500)
def _(c):
    bad, good = SOLV[c["k"]]
    good(c)
    try:
        r = bad(c)
    except REJ:
        return c["k"]
    raise Violation("%s: an invalid argument is accepted, result %r" % (c["k"], r))
