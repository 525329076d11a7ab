"""C02 prox of convex functions is the unique minimiser."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen, ops, trees
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, rdot, same, same_num

RULE = ("cases: convex operator with drawn parameters, drawn point (entries on/next to thresholds, ties, zeros, "
        "scaled, real/complex) and step; non-trivial: the minimiser differs from both the point and zero or a "
        "threshold is hit exactly")
ASSUMPTIONS = ["reference minimisers and functionals of vlib/ops.py, written from the definitions",
               "tolerance 1e-9 (1e-7 for linear systems) relative to the data of the case"]


def check(p, x, tau, y, exact=True):
    """y = prox_tau f(x) of the spec p: compare with the reference minimiser, and test y against
    perturbed points and the Fenchel certificate, which do not use that reference."""
    o = ops.get(p)
    ref = o.prox(p, x, tau)
    sc = max(np.max(np.abs(x), initial=0), np.max(np.abs(ref), initial=0))
    rt = 1e-9
    if p["op"] in ("L2Op", "Quadratic"):
        rt = 1e-7
        for k in "bq":
            if k in p:
                sc = max(sc, tau * np.max(np.abs(gen.arr(p[k]))) * max(1.0, p.get("sigma", 1.0)))
    if p["op"] == "L2" or (p["op"] == "L1" and "g" in p):
        for k in "bqg":
            if k in p:
                sc = max(sc, np.max(np.abs(gen.arr(p[k]))) * (tau * p.get("alpha", 1.0) if k == "q" else 1.0))
    if p["op"] == "Nuclear":
        rt = 1e-8
    same(y, ref, "%s.prox(tau=%g)" % (p["op"], tau), sc, rt)

    def obj(z):
        return o.val(p, z) + nrm(z - x) ** 2 / (2 * tau)
    fy = obj(y)
    tol = 1e-9 * (abs(fy) + ops.vscale(p, y) + nrm(x) ** 2 / tau * 1e-3) + 1e-280
    for d, what in ((x - y, "towards x"), (-y, "towards 0"), (np.ones_like(y), "along ones")):
        m = nrm(d)
        if m == 0:
            continue
        for t in (1.0, 1e-2, 1e-4):
            for s in (1, -1):
                z = y + s * t * d
                if obj(z) < fy - tol:
                    raise Violation("%s.prox(tau=%g) is not a minimiser: objective %.17g, at a point %s %.17g"
                                    % (p["op"], tau, fy, what, obj(z)))
    if hasattr(o, "conj"):
        u = (x - y) / tau
        v = o.dual_viol(p, u)
        us = max(np.max(np.abs(u), initial=0), 1e-300)
        if v > 1e-8 * max(us, sc / tau, p.get("sigma", 1.0) if not isinstance(p.get("sigma"), list) else 1.0):
            raise Violation("%s.prox(tau=%g): (x-y)/tau is outside of the domain of the conjugate by %g" % (p["op"], tau, v))
        gap = o.val(p, y) + o.conj(p, u) - rdot(u, y)
        if abs(gap) > 1e-8 * (abs(o.val(p, y)) + nrm(u) * nrm(y) + nrm(u) * sc + abs(o.conj(p, u)) + 1e-300) + 1e-14 * sc * nrm(y) / tau:
            raise Violation("%s.prox(tau=%g): Fenchel gap %g" % (p["op"], tau, gap))
    return ref


HOMOGENEOUS = ["L1", "L1W", "L21", "L21_plus_L1", "Euclidean", "Nuclear"]


def make(name, quick):
    @gen.mk
    def strat(draw):
        o = ops.REG[name]
        n = gen.dim(draw, 6)
        p = o.spec(draw, n, draw(st.booleans()))
        if not ops.convex_fun(p):
            p["sigma"] = p["sigma"][0]
        tau = gen.pos(draw)
        c = {"p": p, "tau": tau, "x": o.x(draw, p, tau)}
        if name in HOMOGENEOUS and "g" not in p and draw(st.integers(0, 3)) == 0:
            c["s"] = draw(st.integers(-9, 9))       # point and step in other units
        return c

    def fn(c):
        p = c["p"]
        s = 10.0 ** c.get("s", 0)
        tau = c["tau"] * s
        o = ops.get(p)
        x = o.arr(p, c["x"]) * s
        y = out(o.build(p).prox(x.copy(), tau), x.shape, name + ".prox", cplx=None if p["cplx"] else False)
        ref = check(p, x, tau, y)
        lab = "cplx" if p["cplx"] else "real"
        if np.any(ref != 0) and np.any(ref != x):
            return lab + "-moved"
        return lab + "-zero" if gen.nontriv(x) and not np.any(ref) else ""
    sub(name, strat, quick=quick)(fn)


for _n in ops.CONVEX_FUN + ["Nuclear"]:
    make(_n, 600)


@gen.mk
def l21axis(draw):
    o = ops.REG["L21_plus_L1"]
    p = o.spec(draw, draw(st.integers(1, 4)), draw(st.booleans()))
    tau = gen.pos(draw)
    return {"p": p, "tau": tau, "x": o.x(draw, p, tau)}


@sub("L21_plus_L1_axis1", l21axis, quick=300)
def _(c):
    """grouping over the second dimension = grouping of the transposed matrix over the first"""
    p, tau = c["p"], c["tau"]
    o = ops.get(p)
    x = o.arr(p, c["x"])
    y = out(o.build(p).prox(x.T.copy(), tau, axis=1), x.T.shape, "L21_plus_L1.prox(axis=1)")
    same(y.T, o.prox(p, x, tau), "L21_plus_L1.prox(axis=1)", np.max(np.abs(x)), 1e-9)
    return "moved" if gen.nontriv(x) else ""


@gen.mk
def tauarr(draw):
    name = draw(st.sampled_from(["L1", "L2", "Huber"]))
    o = ops.REG[name]
    n = gen.dim(draw, 6)
    p = o.spec(draw, n, draw(st.booleans()))
    taus = gen.poslist(draw, n)
    return {"p": p, "taus": taus, "x": o.x(draw, p, taus[0])}


@sub("tau_array", tauarr, quick=400)
def _(c):
    """one step per entry: each entry is the prox with its own step"""
    p = c["p"]
    o = ops.get(p)
    x, taus = gen.arr(c["x"]), np.array(c["taus"])
    y = out(o.build(p).prox(x.copy(), taus), x.shape, p["op"] + ".prox(array)")
    for i in range(x.size):
        same(y[i], o.prox(p, x, taus[i])[i], "%s.prox with tau[%d]=%g" % (p["op"], i, taus[i]),
             max(np.max(np.abs(x)), np.max(np.abs(y))), 1e-9)
    return p["op"] if len(set(c["taus"])) > 1 else ""


@gen.mk
def wref(draw):
    n, m, cplx = gen.dim(draw, 5), draw(st.integers(1, 4)), draw(st.booleans())
    sg = [gen.pos(draw) for _ in range(m)]
    tau = gen.pos(draw)
    full = draw(st.booleans())      # a reference for every entry, or one column for all of them
    g = gen.vec(draw, n * (m if full else 1), cplx, style=(8, 2), scale=False)
    return {"n": n, "m": m, "cplx": cplx, "sigma": sg, "tau": tau, "g": g, "full": full, "how": draw(st.sampled_from(["array", "fun", "wide"])),
            "d": gen.vec(draw, n * m, cplx, special=tuple(tau * s for s in sg)), "at": draw(st.booleans())}


@sub("L1_weights_reference", wref, quick=300)
def _(c):
    """one weight per column together with a reference"""
    n, m, tau = c["n"], c["m"], c["tau"]
    g = gen.arr(c["g"], (n, m if c["full"] else 1))
    x = gen.arr(c["d"], (n, m)) + (g if c["at"] else 0)
    sg = np.array(c["sigma"])
    w = np.broadcast_to(sg, (n, m)).copy() if c["how"] == "wide" else sg
    op = pp.L1(sigma=(lambda i: sg) if c["how"] == "fun" else w, g=g.copy())
    z = x - g
    a = np.abs(z)
    ref = g + z * np.where(a > tau * sg, 1 - tau * sg / np.where(a > 0, a, 1), 0)
    sc = mx(x) + mx(g)
    y = out(op.prox(x.copy(), tau), x.shape, "L1.prox", cplx=c["cplx"] and None)
    same(y, ref, "L1(one weight per column, reference).prox", sc, 1e-12)
    d = out(op.proxdual(x / tau, 1 / tau), x.shape, "L1.proxdual", cplx=c["cplx"] and None)
    same(d, (x - ref) / tau, "L1(one weight per column, reference).proxdual", sc / tau, 1e-12)
    if c["how"] != "wide":
        same_num(op(x.copy()), float(np.sum(sg * np.sum(a, axis=0))), "L1 value", mx(sg) * sc * x.size, 1e-12)
    return c["how"] + ("-full" if c["full"] else "") if np.any(ref != g) and len(set(c["sigma"])) > 1 and mx(g) > 0 else ""


@gen.mk
def tree_case(draw):
    n = gen.dim(draw, 5)
    t = trees.draw_tree(draw, n, draw(st.integers(1, 2)), ind=False)
    return {"t": t, "tau": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])), "x": gen.rvec(draw, n, scale=False)}


@sub("composite", tree_case, quick=800)
def _(c):
    """the prox of a composed convex function against perturbed points (no reference prox)"""
    t, tau = c["t"], c["tau"]
    x = gen.arr(c["x"])
    y = out(trees.build(t).prox(x.copy(), tau), x.shape, "prox")

    def obj(z):
        v, s = trees.val(t, z)
        return v + nrm(z - x) ** 2 / (2 * tau), s + nrm(z - x) ** 2 / (2 * tau)
    fy, s = obj(y)
    A = trees.affine_scale(t, x) + trees.affine_scale(t, y)
    tol = 1e-9 * s + 1e-13 * (A + A * A) * (1 + 1 / tau)
    ref = trees.prox(t, x, tau)
    dirs = [x - y, -y, ref - y] + [e for e in np.eye(x.size)]
    for d in dirs:
        m = nrm(d)
        if m == 0:
            continue
        for h in (1.0, 1e-2, 1e-4):
            for sg in (1, -1):
                if obj(y + sg * h * d)[0] < fy - tol:
                    raise Violation("prox of %s is not a minimiser: %.17g against %.17g" % (
                        trees.show(t), fy, obj(y + sg * h * d)[0]))
    return trees.kind(t) if nrm(y - x) > 0 else ""
