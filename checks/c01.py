"""C01 values of functionals."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen, ops, trees
from vlib.core import Violation, sub
from vlib.util import out, same, same_num, scalar

RULE = ("cases: an operator with drawn parameters and a drawn vector (integers, quarters, decimals, scaled; "
        "entries placed exactly on and next to thresholds, ties); non-trivial: the vector is not zero and the "
        "documented value is finite")
ASSUMPTIONS = ["documented formulas as transcribed in vlib/ops.py", "tolerance 1e-9 relative to the terms of the sum"]


def make(name, quick):
    @gen.mk
    def strat(draw):
        o = ops.REG[name]
        n = draw(st.integers(max(1, o.minn), 6))
        p = o.spec(draw, n, draw(st.booleans()))
        return {"p": p, "x": o.x(draw, p)}

    def fn(case):
        p = case["p"]
        o = ops.get(p)
        x = o.arr(p, case["x"])
        op = o.build(p)
        v = scalar(op(x.copy()), name)
        ref = o.val(p, x)
        sc = ops.vscale(p, x)
        if name == "Log1":
            # the implementation leaves out the documented factor sigma (listed finding);
            # anything else is reported
            for what, got in (("value", v), ("elementwise", float(np.sum(op.elementwise(x.copy()))))):
                if abs(got - ref) > 1e-9 * max(abs(ref), sc):
                    tag = None
                    if p["sigma"] != 1 and abs(got - ref / p["sigma"]) <= 1e-9 * max(abs(ref), sc) / p["sigma"]:
                        tag = "log1-value-without-sigma"
                    raise Violation("Log1 %s: got %r expected %r" % (what, got, ref), tag)
        else:
            same_num(v, ref, "%s value" % name, sc, rtol=1e-8 if name == "Nuclear" else 1e-9)
        if hasattr(op, "elementwise") and name != "Log1":
            e = op.elementwise(x.copy())
            er = np.array([o.phi(p, r) for r in np.abs(x).tolist()])
            same(np.real(e), er, "%s elementwise" % name, sc, 1e-9)
        return ("cplx" if p["cplx"] else "real") if gen.nontriv(x) else ""
    sub(name, strat, quick=quick)(fn)


for _n in ops.CONVEX_FUN + ["Nuclear", "QECardInd", "RelaxedMS"] + ops.PENALTIES:
    make(_n, 250)


# powers of the unit in the parameters and in the value
UNITS = {"L1": ({"g": 1}, 1), "L1W": ({}, 1), "L2": ({"b": 1, "q": 1}, 2), "Euclidean": ({}, 1), "L21": ({}, 1), "L21_plus_L1": ({}, 1), "Nuclear": ({}, 1), "Huber": ({"alpha": 1}, 1),
         "HuberCircular": ({"alpha": 1}, 1), "SCAD": ({"sigma": 1}, 2), "QECard": ({"mu": 2}, 2), "QECardInd": ({}, 2), "L0": ({}, 0)}


def rescale(v, u):
    return {k: rescale(q, u) for k, q in v.items()} if isinstance(v, dict) else [rescale(q, u) for q in v] if isinstance(v, list) else v * u


@gen.mk
def unit(draw):
    name = draw(st.sampled_from([k for k in UNITS if k in ops.REG]))
    o = ops.REG[name]
    p = o.spec(draw, draw(st.integers(max(1, o.minn), 6)), draw(st.booleans()))
    return {"p": p, "x": o.x(draw, p), "e": draw(st.sampled_from([-60, -40, -30, -20, -10, 10, 20, 30]))}


@sub("units", unit, quick=400)
def _(c):
    """with the vector and the parameters in other units (times a power of two, exact in floating point) the value is the same in those units"""
    p, u = c["p"], 2.0 ** c["e"]
    o = ops.get(p)
    keys, e = UNITS[p["op"]]
    x = o.arr(p, c["x"])
    a = scalar(o.build(p)(x.copy()), p["op"])
    b = scalar(o.build(dict(p, **{k: rescale(p[k], u ** f) for k, f in keys.items() if k in p}))(x * u), p["op"])
    if abs(b / u ** e - a) > 1e-9 * (abs(a) + ops.vscale(p, x)):
        raise Violation("%s: %r; in units %g times smaller %r" % (p["op"], a, u, b / u ** e))
    return p["op"] if a != 0 else ""


@gen.mk
def convolve(draw):
    nd = draw(st.integers(1, 3))
    dims = [draw(st.integers(1, 4)) for _ in range(nd)]
    d = draw(st.integers(0, nd - 1))
    cp = draw(st.integers(0, 7)) if draw(st.booleans()) else 0      # which of filter, data, model are complex
    nh = draw(st.integers(1, 3))
    c = {"dims": dims if nd > 1 or draw(st.booleans()) else None, "n": dims, "dir": d,
         "h": gen.vec(draw, nh, bool(cp & 1), scale=False), "sigma": gen.pos(draw)}
    c["default_dir"] = bool(d == nd - 1 and draw(st.booleans()))
    N = int(np.prod(dims))
    c["b"] = gen.vec(draw, N, bool(cp & 2), scale=False)
    c["x"] = gen.vec(draw, N, bool(cp & 4), scale=False)
    c["nfft"] = draw(st.sampled_from([dims[d] + nh - 1, dims[d] + nh - 1, dims[d] + 7]))
    return c


@sub("L2Convolve", convolve, quick=250)
def _(c):
    """sigma/2 |h * x - b|^2 with linear convolution (zero padded), along one direction"""
    x, b, h = gen.arr(c["x"], c["n"]), gen.arr(c["b"], c["n"]), gen.arr(c["h"])
    if c["dims"] is None:
        op = pp.L2Convolve(h, b, nfft=c["nfft"], sigma=c["sigma"])
    else:
        op = pp.L2Convolve(h, b, nfft=c["nfft"], sigma=c["sigma"], dims=c["dims"],
                           dir=None if c["default_dir"] else c["dir"])
    v = scalar(op(x.ravel()), "L2Convolve")
    y = np.apply_along_axis(lambda t: np.convolve(t, h), c["dir"], x)
    pad = [(0, 0)] * x.ndim
    pad[c["dir"]] = (0, len(h) - 1)
    r = y - np.pad(b, pad)
    ref = c["sigma"] / 2 * float(np.sum(np.abs(r) ** 2))
    same_num(v, ref, "L2Convolve value", c["sigma"] * (np.sum(np.abs(y)) + np.sum(np.abs(b))) ** 2 + 1e-30, 1e-9)
    return "%dd%s" % (x.ndim, "c" if np.iscomplexobj(r) else "") if gen.nontriv(y) else ""


@gen.mk
def rankl2(draw):
    m, n = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    cplx = draw(st.booleans())
    return {"m": m, "n": n, "r0": draw(st.integers(1, min(m, n))), "x": gen.vec(draw, m * n, cplx, scale=False),
            "M": gen.vec(draw, m * n, cplx, scale=False)}


@sub("RankL2", rankl2, quick=250)
def _(c):
    M, x = gen.arr(c["M"], (c["m"], c["n"])), gen.arr(c["x"])
    op = pp.QuadraticEnvelopeRankL2((c["m"], c["n"]), c["r0"], M)
    v = scalar(op(x.copy()), "RankL2")
    S = ops.svals(x.reshape(M.shape))
    e = 0.5 * ops.ksupport2(S, c["r0"]) - 0.5 * ops.fsum(S ** 2)
    d = float(np.linalg.norm(x - M.ravel()))
    sc = ops.fsum(S) ** 2 + d * d
    ref = e + 0.5 * d * d
    if abs(v - ref) > 1e-8 * max(abs(ref), sc):
        tag = "rankl2-unsquared-misfit" if abs(v - (e + 0.5 * d)) <= 1e-8 * max(abs(ref), sc, d) else None
        raise Violation("QuadraticEnvelopeRankL2 value: got %r expected %r" % (v, ref), tag)
    return "cplx" if gen.isc(c["x"]) else "real"


@gen.mk
def svp(draw):
    m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    name = draw(st.sampled_from(["L1", "Log", "ETP", "Geman", "SCAD", "QECard", "Huber", "L2"]))
    o = ops.REG[name]
    p = o.spec(draw, min(m, n))
    return {"m": m, "n": n, "p": p, "x": gen.vec(draw, m * n, draw(st.booleans()), scale=False)}


@sub("SingularValuePenalty", svp, quick=250)
def _(c):
    p = c["p"]
    x = gen.arr(c["x"])
    op = pp.SingularValuePenalty((c["m"], c["n"]), ops.build(p))
    S = ops.svals(x.reshape(c["m"], c["n"]))
    same_num(scalar(op(x.copy()), "SVP"), ops.get(p).val(p, S), "SingularValuePenalty(%s)" % p["op"],
             ops.vscale(p, S) + ops.fsum(S), 1e-8)
    return p["op"]


@gen.mk
def tree_case(draw):
    n = gen.dim(draw, 6)
    t = trees.draw_tree(draw, n, draw(st.integers(1, 3)), ind=False)
    return {"t": t, "x": gen.rvec(draw, n)}


@sub("composite", tree_case, quick=500)
def _(c):
    x = gen.arr(c["x"])
    op = trees.build(c["t"])
    v = scalar(op(x.copy()), "composite")
    ref, sc = trees.val(c["t"], x)
    same_num(v, ref, "value of %s" % trees.show(c["t"]), sc, 1e-9)
    return trees.kind(c["t"]) if gen.nontriv(x) else ""


@gen.mk
def sum_case(draw):
    n = gen.dim(draw, 5)
    fs = []
    for _ in range(draw(st.integers(1, 4))):
        name = draw(st.sampled_from(["L1", "L2", "Huber", "Euclidean", "Box"]))
        fs.append(ops.REG[name].spec(draw, n))
    return {"fs": fs, "x": gen.rvec(draw, n)}


@sub("Sum", sum_case, quick=300)
def _(c):
    x = gen.arr(c["x"])
    op = pp.Sum([ops.build(p) for p in c["fs"]])
    v = op(x.copy())
    inside = [ops.get(p).viol(p, x) for p in c["fs"] if ops.get(p).ind]
    funs = [p for p in c["fs"] if not ops.get(p).ind]
    if any(0 < d <= 1e-9 for d in inside):
        return ""
    if any(d > 0 for d in inside):
        # a point outside of one of the sets has no finite value
        if not (v is False or (isinstance(v, (float, int)) and not np.isfinite(v)) or v == 0 and isinstance(v, (bool, np.bool_))):
            raise Violation("Sum evaluated to %r outside of a set" % (v,))
        return "outside"
    if not funs:
        if not (isinstance(v, (bool, np.bool_)) and bool(v)):
            raise Violation("Sum of indicators evaluated to %r inside of all sets" % (v,))
        return "inside"
    ref = sum(ops.get(p).val(p, x) for p in funs)
    same_num(scalar(v, "Sum"), ref, "Sum value", sum(ops.vscale(p, x) for p in funs), 1e-9)
    return "fun" if not inside else "mixed"
