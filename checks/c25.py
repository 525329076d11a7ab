"""C25 PALM and inertial PALM."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from pyproximal.optimization import palm as palm_m
from pyproximal.utils.bilinear import BilinearOperator, LowRankFactorizedMatrix
from vlib import gen, ops, prob, recur
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: low-rank factorised fits (real/complex) and a user-defined bilinear operator, any convex or non-convex regulariser or none per block, step factors, "
        "inertia coefficients, 1 to 10 iterations (recursion), 20 to 60 (descent), 2000 (stationarity); non-trivial: both factors move")
ASSUMPTIONS = ["block constants are those reported by the bilinear operator (decided in C26); zero constants (a vanished factor) end the history",
               "prox of the operands are those of independently built equal operators",
               "stationarity is decided when the documented recursion, run with dense algebra, is itself stationary within the same iterations"]


class Outer(BilinearOperator):
    """user-defined: H(x, y) = 1/2 sum (x_i y_i - d_i)^2 (element-wise product)"""

    def __init__(self, d, dtype=float):
        super().__init__()
        self.d = d
        self.sizex = self.sizey = d.size
        self.x = self.y = np.zeros(d.size)

    def __call__(self, x, y=None):
        if y is None:
            x, y = x[:self.sizex], x[self.sizex:]
        return 0.5 * float(np.sum(np.abs(x * y - self.d) ** 2))

    val = __call__

    def gx(self, x, y):
        return (x * y - self.d) * np.conj(y)

    def gy(self, x, y):
        return (x * y - self.d) * np.conj(x)

    def gradx(self, x):
        return self.gx(x, self.y)

    def grady(self, y):
        return self.gy(self.x, y)

    def grad(self, xy):
        return np.concatenate([self.gradx(xy[:self.sizex]), self.grady(xy[self.sizex:])])

    def lx(self, x):
        return float(np.max(np.abs(x)) ** 2)

    ly = lx


NAMES = ["L1", "L1", "L2", "Euclidean", "Box", "EuclideanBall", "L1Ball", "SimplexSet", "Huber", "L0", "SCAD", "ETP"]
NAMES_C = ["L1", "Euclidean", "EuclideanBall", "L0"]


def draw_reg(draw, n, cplx, convex=False):
    if draw(st.integers(0, 3)) == 0:
        return None
    names = [q for q in (NAMES_C if cplx else NAMES) if q in ops.REG and not (convex and q in (("L0", "SCAD") if convex == "nojump" else ("L0", "SCAD", "ETP")))]
    p = prob.draw_g(draw, n, cplx, names=names)
    return p


def units(draw, c):
    """the factors and the data in other units"""
    if draw(st.integers(0, 3)) == 0:
        u = 10.0 ** draw(st.integers(-2, 4))
        for key, s in (("x0", u), ("y0", u), ("d", u * u)):
            c[key] = gen.scale(c[key], s)
    return c


def draw_lr(draw):
    if draw(st.integers(0, 4)) == 0:
        n = draw(st.integers(1, 5))
        cplx = draw(st.integers(0, 3)) == 0
        c = {"user": True, "cplx": cplx, "nx": n, "ny": n}
        sz = n
    else:
        n, k, m = draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 4))
        cplx = draw(st.integers(0, 3)) == 0
        c = {"user": False, "n": n, "k": k, "m": m, "cplx": cplx, "nx": n * k, "ny": k * m}
        sz = n * m
    for key, q in (("d", sz), ("x0", c["nx"]), ("y0", c["ny"])):
        c[key] = gen.vec(draw, q, cplx, style=(8, 2), scale=False)
    return c


def mklr(c):
    d, x0, y0 = gen.arr(c["d"]), gen.arr(c["x0"]), gen.arr(c["y0"])
    if c["user"]:
        return Outer(d), Outer(d), x0, y0
    n, k, m = c["n"], c["k"], c["m"]
    if c.get("init"):      # the operator is built with other factors than the starting ones
        H = LowRankFactorizedMatrix(np.ones((n, k), x0.dtype), np.ones((k, m), x0.dtype), d.copy())
    else:
        H = LowRankFactorizedMatrix(x0.reshape(n, k).copy(), y0.reshape(k, m).copy(), d.copy())
    return H, recur.LowRank(n, k, m, d), x0, y0


def opt(p):
    return None if p is None else ops.build(p)


def px(p):
    if p is None:
        return None
    o = ops.build(p)
    return lambda v, t: o.prox(v, t)


def val(p, v):
    return 0.0 if p is None else prob.gval(p, v)


def run(c, H, x0, y0, niter, its, **kw):
    cb = lambda x, y: its.append((np.array(x, copy=True), np.array(y, copy=True)))
    kw = dict(gammaf=c["gf"], gammag=c["gg"], niter=niter, callback=cb, niterback=400, **kw)
    try:
        with np.errstate(all="ignore"):
            if c["inertial"]:
                if c["a"] is not None:
                    kw["a"] = tuple(c["a"])
                return palm_m.iPALM(H, opt(c["f"]), opt(c["g"]), x0.copy(), y0.copy(), **kw)
            return palm_m.PALM(H, opt(c["f"]), opt(c["g"]), x0.copy(), y0.copy(), **kw)
    except ZeroDivisionError:
        raise Skip()     # a factor vanished: no step is defined


def inertia(c):
    return (0.0, 0.0) if not c["inertial"] else (1.0, 1.0) if c["a"] is None else c["a"]


@gen.mk
def rec(draw):
    c = draw_lr(draw)
    c.update(f=draw_reg(draw, c["nx"], c["cplx"]), g=draw_reg(draw, c["ny"], c["cplx"]), niter=draw(st.integers(1, 10)), inertial=draw(st.booleans()),
             a=[draw(st.integers(0, 10)) / 10, draw(st.integers(0, 10)) / 10] if draw(st.integers(0, 3)) else None, init=draw(st.booleans()),
             gf=draw(st.sampled_from([1.0, 1.0, 1.5, 3.0, 0.7, None])), gg=draw(st.sampled_from([1.0, 1.0, 1.5, 3.0, 0.7, None])))
    if draw(st.integers(0, 7)) == 0:        # a longer history, with steps for which it does not amplify rounding
        c.update(niter=draw(st.integers(20, 40)), gf=draw(st.sampled_from([1.5, 3.0])), gg=draw(st.sampled_from([1.5, 3.0])))
    return units(draw, c)


def stable(c, x0, y0, R, ref):
    """number of iterates that a perturbation of 1e-9 of the start does not change: discontinuous proxes are not compared within rounding of their jumps"""
    if not any(p and p["op"] in ("L0", "SCAD", "ETP") for p in (c["f"], c["g"])):
        return len(ref)
    k = len(ref)
    for e in (1e-9, -1e-9):
        r = gen.rng(7)
        q, _ = recur.palm(R, px(c["f"]), px(c["g"]), x0 + e * r.standard_normal(x0.size), y0 + e * r.standard_normal(y0.size), c["gf"], c["gg"], 0.5, 400, c["niter"], inertia(c))
        for i in range(k):
            if i >= len(q) or max(mx(q[i][0] - ref[i][0]), mx(q[i][1] - ref[i][1])) > 1e-5 * (1 + mx(ref[i][0]) + mx(ref[i][1])):
                k = i
                break
    return k


@sub("recursion", rec, quick=700)
def _(c):
    H, R, x0, y0 = mklr(c)
    ref, steps = recur.palm(R, px(c["f"]), px(c["g"]), x0, y0, c["gf"], c["gg"], 0.5, 400, c["niter"], inertia(c))
    if len(ref) < c["niter"] or any(min(v) < 1e-11 for v in steps):
        return ""       # (the step search gives up at 1e-12)
    its = []
    x, y = run(c, H, x0, y0, c["niter"], its)
    what = "%s(gammaf=%s, gammag=%s, a=%s)" % ("iPALM" if c["inertial"] else "PALM", c["gf"], c["gg"], c["a"])
    if len(its) != c["niter"] or not (np.array_equal(x, its[-1][0]) and np.array_equal(y, its[-1][1])):
        raise Violation("%s: %d callbacks for %d iterations, or the result is not the last iterate" % (what, len(its), c["niter"]))
    s0 = 1 + mx(x0) + mx(y0)
    for k, (a, b) in enumerate(zip(its, ref[:stable(c, x0, y0, R, ref)])):
        s = s0 + max(max(mx(u), mx(v)) for u, v in ref[:k + 1])
        if s > 1e6 * s0:
            break
        for u, v, w in zip(a, b, "xy"):
            same(out(u, v.shape, what), v, "%s, %s, iterate %d (f %s, g %s)" % (what, w, k + 1, c["f"] and c["f"]["op"], c["g"] and c["g"]["op"]), s, 1e-7)
    mv = nrm(its[-1][0] - x0) > 0 and nrm(its[-1][1] - y0) > 0
    return "%s-%s" % ("iPALM" if c["inertial"] else "PALM", "user" if c["user"] else "lowrank") if mv and c["niter"] > 1 else ""


@gen.mk
def desc(draw):
    c = draw_lr(draw)
    c.update(f=draw_reg(draw, c["nx"], c["cplx"], "nojump"), g=draw_reg(draw, c["ny"], c["cplx"], "nojump"), niter=draw(st.integers(20, 60)), inertial=False, a=None, init=False,
             gf=draw(st.sampled_from([1.0, 1.5, 3.0, None])), gg=draw(st.sampled_from([1.0, 1.5, 3.0, None])))
    return units(draw, c)


@sub("descent", desc, quick=250)
def _(c):
    """every block update decreases the full objective by the amount its step guarantees"""
    H, R, x0, y0 = mklr(c)
    ref, steps = recur.palm(R, px(c["f"]), px(c["g"]), x0, y0, c["gf"], c["gg"], 0.5, 400, c["niter"])
    if len(ref) < c["niter"] and not (c["gf"] is None and c["gg"] is None):
        return ""
    if any(min(v) < 1e-11 for v in steps):
        return ""
    its = []
    run(c, H, x0, y0, c["niter"], its)
    xp, yp = its[0]
    J0 = R.val(x0, y0) + R.val(xp, yp)
    for k, (x, y) in enumerate(its[1:], 2):
        for a, b, gam, reg, L, what in (((xp, yp), (x, yp), c["gf"], c["f"], lambda: R.ly(yp), "x"), ((x, yp), (x, y), c["gg"], c["g"], lambda: R.lx(x), "y")):
            i = 0 if what == "x" else 1
            A = R.val(*a) + val(reg, a[i])
            B = R.val(*b) + val(reg, b[i])
            need = 0.0
            if gam is not None and gam > 1:
                need = (gam - 1) / 2 * L() * nrm(a[i] - b[i]) ** 2 * (1 - 1e-6)
            if not B <= A - need + 1e-9 * (1 + abs(A) + abs(J0)):
                raise Violation("PALM(gammaf=%s, gammag=%s): updating %s in iteration %d changes the objective from %r to %r (guaranteed decrease %g)" % (
                    c["gf"], c["gg"], what, k, A, B, need))
        xp, yp = x, y
    return "%s-%s" % (c["gf"], c["gg"]) if nrm(its[-1][0] - its[0][0]) > 0 and nrm(its[-1][1] - its[0][1]) > 0 else ""


@gen.mk
def stat(draw):
    c = draw_lr(draw)
    c.update(f=draw_reg(draw, c["nx"], c["cplx"], True), g=draw_reg(draw, c["ny"], c["cplx"], True), inertial=draw(st.booleans()), a=[0.3, 0.2], init=False,
             gf=draw(st.sampled_from([1.0, 1.5])), gg=draw(st.sampled_from([1.0, 1.5])))
    return c


def kkt(c, R, x, y):
    def one(p, v, gr, L):
        L = max(L, 1e-9)
        q = v - gr / L
        return nrm(v - (q if p is None else prob.gprox(p, q, 1 / L)))
    return max(one(c["f"], x, R.gx(x, y), R.ly(y)), one(c["g"], y, R.gy(x, y), R.lx(x)))


@sub("stationary", stat, quick=40, budget=(45, 1500))
def _(c):
    """both blocks end at fixed points of their own prox-gradient step"""
    H, R, x0, y0 = mklr(c)
    N = 800
    its = []
    if len(recur.palm(R, px(c["f"]), px(c["g"]), x0, y0, c["gf"], c["gg"], 0.5, 400, 3, inertia(c))[0]) < 3:
        return ""
    x, y = run(c, H, x0, y0, N, its)
    s = 1 + mx(x0) + mx(y0)
    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
        return ""       # a factor vanished
    if min(mx(x), mx(y)) < 1e-6:
        return ""
    r = kkt(c, R, x, y)
    if r > 1e-5 * s:
        ref, _ = recur.palm(R, px(c["f"]), px(c["g"]), x0, y0, c["gf"], c["gg"], 0.5, 400, N, inertia(c))
        if len(ref) < N or kkt(c, R, *ref[-1]) > 1e-7 * s:
            return ""
        raise Violation("%s ends at x=%s, y=%s, which is not stationary (residual %g)" % ("iPALM" if c["inertial"] else "PALM", x, y, r))
    return "iPALM" if c["inertial"] else "PALM" if kkt(c, R, x0, y0) > 1e-3 else ""
