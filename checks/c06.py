"""C06 Moreau decomposition and conjugate proximal operators."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal.utils.moreau import moreau
from vlib import gen, ops, trees
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, rdot, same

RULE = ("cases: operator with drawn parameters, point (thresholds of prox and dual, ties, zeros, complex) and step; "
        "non-trivial: neither the prox nor the dual prox is zero, or a clipped dual entry")
ASSUMPTIONS = ["the conjugate's prox is computed from the exact reference prox of vlib/ops.py and certified by the "
               "Fenchel equality", "at a jump of a non-convex prox rounding may select either branch"]

ALL = ops.CONVEX_FUN + ["Nuclear"] + ops.CONVEX_IND + ["L0Ball", "L10Ball"] + ops.PENALTIES + ["QECardInd", "RelaxedMS"]


def datascale(p):
    s = 0.0
    for k in ("b", "q", "g", "center", "lo", "hi"):
        if k in p:
            v = gen.arr(p[k]) if not isinstance(p[k], (int, float)) else np.array([p[k]])
            s = max(s, mx(v) * (p.get("alpha", 1.0) if k == "q" else 1.0))
    return s


def is_jump(o, p, op, x, tau, d):
    """a non-convex prox evaluated at a rounding-perturbed point changes by more than rounding"""
    w = np.arange(x.size).reshape(x.shape) + 1.0
    for r in (1 - 1e-11, 1 + 1e-11):
        for a, b in ((x * r, tau), (x, tau * r), (x * (1 + (r - 1) * w), tau)):
            if mx(op.prox(a, b) - d) > 1e-9 * (1 + mx(x)):
                return True
    return False


def make(name, quick):
    @gen.mk
    def strat(draw):
        o = ops.REG[name]
        p = o.spec(draw, gen.dim(draw, 6), draw(st.booleans()))
        tau = gen.pos(draw)
        if name == "SCAD":
            tau = min(tau, o.maxtau(p))
        return {"p": p, "tau": tau, "x": o.x(draw, p, tau), "path": draw(st.integers(0, 2))}

    def fn(c):
        p, tau = c["p"], c["tau"]
        o = ops.get(p)
        x = o.arr(p, c["x"])
        op = o.build(p)
        pr = out(op.prox(x.copy(), tau), x.shape, name + ".prox")
        if c["path"] == 0:
            du = op.proxdual(x / tau, 1 / tau)
        elif c["path"] == 1:
            du = op.H.prox(x / tau, 1 / tau)
            same(op.H.proxdual(x.copy(), tau), pr, name + ".H.proxdual is not prox", mx(x), 1e-12)
        else:
            du = op.H.H.proxdual(x / tau, 1 / tau)
        du = out(du, x.shape, name + ".proxdual", cplx=None if np.iscomplexobj(x) else False)
        err = mx(pr + tau * du - x)
        sc = mx(x) + mx(pr) + datascale(p) * max(1.0, tau if "q" in p or p["op"] == "Quadratic" else 1.0)
        rt = 1e-7 if name in ("L2Op", "Quadratic") else 1e-8
        tol = rt * sc + 3 * o.acc(p, x) + (3 * tau * o.acc(p, x / tau) if o.ind else 0)
        if err > tol:
            if not o.convex and is_jump(o, p, op, x, tau, pr):
                return "jump"
            raise Violation("%s: x - prox - tau*dual = %g (tau=%g)\n x %s\n prox %s\n dual %s" % (name, err, tau, x, pr, du))
        if gen.nontriv(pr) and gen.nontriv(du):
            return "both-cplx" if p["cplx"] else "both"
        return ""
    sub(name, strat, quick=quick)(fn)


for _n in ALL:
    make(_n, 200)


def make_dual(name, quick):
    @gen.mk
    def strat(draw):
        o = ops.REG[name]
        p = o.spec(draw, gen.dim(draw, 6), draw(st.booleans()))
        if name == "Nuclear" and not o.is_convex(p):
            p["sigma"] = p["sigma"][0]
        s = gen.pos(draw)
        x = o.x(draw, p, 1.0)
        if name == "L1W" and draw(st.booleans()):
            pass
        return {"p": p, "s": s, "u": x, "adj": draw(st.booleans())}

    def fn(c):
        """y = prox of s*f^* at u: u - s prox_{f/s}(u/s); certified by f(z)+f*(y)=<y,z>, z=(u-y)/s"""
        p, s = c["p"], c["s"]
        o = ops.get(p)
        u = o.arr(p, c["u"])
        op = o.build(p)
        y = (op.H.prox if c["adj"] else op.proxdual)(u.copy(), s)
        y = out(y, u.shape, name + ".proxdual", cplx=None if np.iscomplexobj(u) else False)
        zr = o.prox(p, u / s, 1 / s)
        sc = mx(u) + s * mx(zr) + s * datascale(p)
        rt = 1e-7 if name in ("L2Op", "Quadratic") else 1e-8
        same(y, u - s * zr, "%s.proxdual(s=%g)" % (name, s), sc + s * o.acc(p, u / s) / rt, rt)
        if hasattr(o, "conj") and not o.ind:
            v = o.dual_viol(p, y)
            if v > 1e-8 * sc:
                raise Violation("%s.proxdual(s=%g) leaves the domain of the conjugate by %g" % (name, s, v))
            z = (u - y) / s
            gap = o.val(p, z) + o.conj(p, y) - rdot(y, z)
            gs = abs(o.val(p, z)) + nrm(y) * nrm(z) + nrm(y) * sc / s + abs(o.conj(p, y)) + sc * sc / s * 1e-3
            if abs(gap) > 1e-7 * gs + 1e-300:
                raise Violation("%s.proxdual(s=%g): Fenchel gap %g" % (name, s, gap))
        if not gen.nontriv(y):
            return ""
        lab = "clipped" if mx(y - u) > 1e-12 * sc else "inside"
        return lab + ("-cplx" if p["cplx"] else "")
    sub("dual_" + name, strat, quick=quick)(fn)


for _n in ops.CONVEX_FUN + ["Nuclear"] + ops.CONVEX_IND:
    make_dual(_n, 300)


@gen.mk
def tree_case(draw):
    n = gen.dim(draw, 5)
    t = trees.draw_tree(draw, n, draw(st.integers(1, 3)))
    return {"t": t, "s": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 7.0])), "u": gen.rvec(draw, n, scale=False)}


@sub("composite_dual", tree_case, quick=500)
def _(c):
    t, s = c["t"], c["s"]
    u = gen.arr(c["u"])
    op = trees.build(t)
    zr = trees.prox(t, u / s, 1 / s)
    sc = s * trees.affine_scale(t, u / s) + mx(u) + s * mx(zr) + s * max(
        [datascale(p) for p in trees.leaves(t)] + [0.0]) * 10
    for f, what in ((op.proxdual, "proxdual"), (op.H.prox, "H.prox"), (op.H.H.proxdual, "H.H.proxdual")):
        same(out(f(u.copy(), s), u.shape, what), u - s * zr, "%s of %s" % (what, trees.show(t)), sc, 1e-7)
    pr = op.prox(u.copy(), s)
    same(pr + s * op.proxdual(u / s, 1 / s), u, "Moreau identity of %s" % trees.show(t), sc + mx(pr), 1e-7)
    return t["t"] if gen.nontriv(u - s * zr) else ""


@gen.mk
def other(draw):
    k = draw(st.sampled_from(["TV", "Simplex", "SVP", "Hankel", "L2Convolve", "Intersection", "RankL2", "Sum", "ETPm", "axis", "axis"]))
    c = {"k": k, "tau": gen.pos(draw)}
    m, n = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    c.update(m=m, n=n)
    c["x"] = gen.rvec(draw, m * n, scale=False)
    c["w"] = gen.rvec(draw, m * n, (3, 1), scale=False)
    c["i"] = draw(st.integers(1, min(m, n) - 1))
    c["sigma"] = gen.pos(draw)
    c["axis"] = draw(st.sampled_from([0, 1]))
    return c


@sub("derived_duals", other, quick=300)
def _(c):
    """operators whose dual is derived: same result from two equal operators, identity holds"""
    m, n, k = c["m"], c["n"], c["k"]
    w = np.array(c["w"])

    def build():
        if k == "TV":
            return pp.TV((m, n), sigma=c["sigma"], niter=5)
        if k == "Simplex":
            return pp.Simplex(m * n, c["sigma"], dims=(m, n), axis=c["axis"], xtol=1e-10)
        if k == "SVP":
            return pp.SingularValuePenalty((m, n), pp.L1(sigma=c["sigma"]))
        if k == "Hankel":
            return pp.Hankel((m, n))
        if k == "L2Convolve":
            return pp.L2Convolve(w[:2].copy(), b=w.copy(), nfft=m * n, sigma=c["sigma"])
        if k == "Intersection":
            return pp.Intersection(m, n, c["sigma"], niter=5)
        if k == "RankL2":
            return pp.QuadraticEnvelopeRankL2((m, n), c["i"], w.reshape(m, n))
        if k == "Sum":
            return pp.Sum([pp.L1(sigma=c["sigma"]), pp.Box(-1.0, 1.0)], niter=5)
        return pp.SingularValuePenalty((m, n), pp.Geman(c["sigma"], 1.3))
    x, tau = np.array(c["x"]), c["tau"]
    if k == "axis":
        op = pp.L21_plus_L1(c["sigma"], 0.3)
        X = x.reshape(m, n)
        p = out(op.prox(X.copy(), tau, axis=c["axis"]), X.shape, "L21_plus_L1.prox(axis)")
        d = out(op.proxdual(X / tau, 1 / tau, axis=c["axis"]), X.shape, "L21_plus_L1.proxdual(axis)")
        same(p + tau * d, X, "Moreau identity of L21_plus_L1 with axis=%d" % c["axis"], mx(X), 1e-9)
        if c["axis"]:
            same(d, op.proxdual(X.T / tau, 1 / tau).T, "L21_plus_L1.proxdual(axis=1) is not that of the transposed matrix", mx(X) / tau, 1e-9)
        return "axis%d" % c["axis"] if gen.nontriv(p) and gen.nontriv(d) else ""
    op = build()
    p = out(op.prox(x.copy(), tau), x.shape, k + ".prox")
    d = out(build().proxdual(x / tau, 1 / tau), x.shape, k + ".proxdual")
    err = mx(p + tau * d - x)
    sc = 1 + mx(x) + mx(p) + mx(w) * max(1.0, tau)
    if err > 1e-6 * sc:
        if is_jump(None, None, op, x, tau, p):
            return "jump"
        raise Violation("%s: Moreau identity violated by %g" % (k, err))
    if not moreau(build(), x.copy(), tau, tol=1e-5 * sc, raiseerror=False):
        raise Violation("%s: moreau utility disagrees" % k)
    return k if gen.nontriv(p) and gen.nontriv(d) else ""


class DualOnly(pp.ProxOperator):
    """operator of which only the conjugate's prox is implemented"""

    def __init__(self, f):
        super().__init__(None, False)
        self.f = f

    def __call__(self, x):
        return self.f[0](x)

    def proxdual(self, x, tau):
        return x - tau * self.f[1](x / tau, 1.0 / tau)


DU = ["L1", "L2", "Euclidean", "Huber", "HuberCircular", "L21", "Box", "EuclideanBall", "L2b", "Quadratic"]


@gen.mk
def donly(draw):
    name = draw(st.sampled_from([n for n in DU if n in ops.REG]))
    o = ops.REG[name]
    p = o.spec(draw, gen.dim(draw, 5), False)
    tau = gen.pos(draw)
    return {"p": p, "tau": tau, "x": o.x(draw, p, tau), "mode": draw(st.integers(0, 4))}


@sub("dual_only", donly, quick=600)
def _(c):
    """the prox is derived from proxdual when only the latter is implemented"""
    p, tau = c["p"], c["tau"]
    o = ops.get(p)
    x = o.arr(p, c["x"])
    d = DualOnly((lambda v: o.val(p, v), lambda v, t: o.prox(p, v, t)))
    m = c["mode"]
    if m == 0:
        y, ref = d.prox(x.copy(), tau), o.prox(p, x, tau)
    elif m == 1:
        y, ref = d.H.proxdual(x.copy(), tau), o.prox(p, x, tau)
    elif m == 2:
        y, ref = (3.0 * d).prox(x.copy(), tau), o.prox(p, x, 3 * tau)
    elif m == 3:
        v = np.arange(x.size) - 1.5
        y, ref = (d + v).prox(x.copy(), tau), o.prox(p, x - tau * v, tau)
    else:
        d.sigmame = tau
        y, ref = x - tau * d.grad(x.copy()), o.prox(p, x, tau)
    sc = mx(x) + mx(ref) + datascale(p) * max(1.0, 3 * tau) + 3 * tau * x.size
    same(out(y, x.shape, "prox"), ref, "prox from proxdual only (%s, mode %d, tau=%g)" % (p["op"], m, tau),
         sc + o.acc(p, x) * 1e7, 1e-7)
    return "%d" % m if gen.nontriv(ref) and mx(ref - x) > 0 else ""


# ------------------------------------------------------------------ other units
HOM = {"L1": {"sigma": 1, "g": 1}, "Euclidean": {"sigma": 1}, "L21": {"sigma": 1}, "Nuclear": {"sigma": 1}, "L21_plus_L1": {"sigma": 1},
       "EuclideanBall": {"center": 1, "radius": 1}, "Box": {"lo": 1, "hi": 1}, "HalfSpace": {"b": 1}, "L2": {"b": 1, "q": 1}, "L1W": {"sigma": 1}}


@gen.mk
def ucase(draw):
    name = draw(st.sampled_from([k for k in HOM if k in ops.REG]))
    o = ops.REG[name]
    p = o.spec(draw, gen.dim(draw, 5), draw(st.booleans()))
    tau = gen.pos(draw)
    return {"p": p, "tau": tau, "x": o.x(draw, p, tau), "e": draw(st.sampled_from([-60, -40, -30, -20, -10, 10, 20, 30])), "H": draw(st.booleans())}


def rescale(v, u):
    return {k: rescale(q, u) for k, q in v.items()} if isinstance(v, dict) else [rescale(q, u) for q in v] if isinstance(v, list) else v * u


@sub("units", ucase, quick=500)
def _(c):
    """prox and dual prox in other units (all data times a power of two, exact in floating point) are the same points in those units"""
    p, tau, u = c["p"], c["tau"], 2.0 ** c["e"]
    o = ops.get(p)
    x = o.arr(p, c["x"])
    q = dict(p, **{k: rescale(p[k], u ** e) for k, e in HOM[p["op"]].items() if k in p})
    lab = ""
    for k in ("prox", "proxdual"):
        def f(s):
            op = o.build(s)
            return getattr(op.H, "prox" if k == "proxdual" else "proxdual") if c["H"] else getattr(op, k)
        a = out(f(p)(x.copy(), tau), x.shape, k)
        b = out(f(q)(x * u, tau), x.shape, k)
        if mx(b / u - a) > 1e-9 * (mx(x) + mx(a) + datascale(p)):
            raise Violation("%s.%s(tau=%g): %s at %s; with all data times %g: %s (divided by it)" % (p["op"], k, tau, a, x, u, b / u))
        if gen.nontriv(a):
            lab = p["op"]
    return lab


# ------------------------------------------------------------------ one step per entry
SEP = ["L1", "L2", "Huber", "Box"]


@gen.mk
def vtau(draw):
    name = draw(st.sampled_from(SEP))
    o = ops.REG[name]
    p = o.spec(draw, gen.dim(draw, 6), draw(st.booleans()))
    t = gen.pos(draw)
    return {"p": p, "tau": [t * draw(st.sampled_from([0.25, 0.5, 1.0, 1.5, 4.0])) for _ in range(min(p["n"], 12))], "x": o.x(draw, p, t), "mode": draw(st.integers(0, 3)),
            "wrap": draw(st.integers(0, 3))}


@sub("array_steps", vtau, quick=400)
def _(c):
    """prox and conjugate prox of separable functions with one step per entry act entrywise"""
    p = c["p"]
    o = ops.get(p)
    x, tau = o.arr(p, c["x"]), np.resize(np.array(c["tau"]), p["n"])
    w = c["wrap"]

    def build():
        op = o.build(p)
        return (2.0 * op if w == 1 else op + np.full(p["n"], 0.5) if w == 2 else op.precomposition(2.0, 0.5) if w == 3 else op)
    m = c["mode"]
    f = [lambda op, z, t: op.prox(z, t), lambda op, z, t: op.proxdual(z, t), lambda op, z, t: op.H.prox(z, t), lambda op, z, t: op.H.proxdual(z, t)][m]
    what = "%s%s.%s with one step per entry" % (p["op"], ("", " times two", " plus linear term", " precomposed")[w], ("prox", "proxdual", "H.prox", "H.proxdual")[m])
    y = out(f(build(), x.copy(), tau.copy()), x.shape, what)
    jumps = not o.convex
    for t in np.unique(tau):
        i = tau == t
        ref = out(f(build(), x.copy(), float(t)), x.shape, what)
        e = np.abs(y[i] - ref[i])
        tol = 1e-9 * (mx(x) + mx(ref))
        if np.any(e > tol):
            if jumps and any(is_jump(o, p, build() if m in (0, 3) else build().H, x, float(t), ref) for _ in (0,)):
                return "jump"
            raise Violation("%s: %s at the entries with step %g, expected %s (x=%s)" % (what, y[i], t, ref[i], x[i]))
    return p["op"] if len(set(tau)) > 1 and gen.nontriv(y) else ""
