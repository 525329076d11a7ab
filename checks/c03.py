"""C03 prox of non-convex penalties."""
import math

import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen, ops
from vlib.core import Violation, sub
from vlib.util import close, nrm, out, same

RULE = ("cases: penalty with drawn parameters, step in the documented range and a drawn point with entries on both "
        "sides of (and at) every jump, kink and stationary-point birth; non-trivial: at least one entry is moved or "
        "zeroed while another is kept, or the point is not zero")
ASSUMPTIONS = ["global minimum found by a dense 1-D search with local refinement over [0,|x|]",
               "objective compared to 1e-9 relative to its value at zero"]


def gmin(phi, r, tau, extra=()):
    """global minimum value of phi(y) + (y-r)^2/(2 tau) on [0, r]"""
    f = lambda y: phi(y) + (y - r) ** 2 / (2 * tau)
    ys = np.concatenate([np.linspace(0, r, 257), r * np.linspace(0, 1, 129) ** 4, r * (1 - np.linspace(0, 1, 129) ** 4),
                         [e for e in extra if 0 <= e <= r]])
    ys = np.unique(ys)
    v = np.array([f(y) for y in ys.tolist()])
    best = float(np.min(v))
    for i in np.argsort(v)[:4]:
        lo, hi = ys[max(i - 1, 0)], ys[min(i + 1, ys.size - 1)]
        g = (math.sqrt(5) - 1) / 2
        a, b = lo, hi
        c, d = b - g * (b - a), a + g * (b - a)
        fc, fd = f(c), f(d)
        for _ in range(45):
            if fc < fd:
                b, d, fd = d, c, fc
                c = b - g * (b - a)
                fc = f(c)
            else:
                a, c, fc = c, d, fd
                d = a + g * (b - a)
                fd = f(d)
        best = min(best, fc, fd)
    return best


def phase_ok(x, y, what):
    """y keeps the sign/phase of x and is not larger in modulus"""
    ax, ay = np.abs(x), np.abs(y)
    if np.any(ay > ax * (1 + 1e-12) + 1e-300):
        raise Violation("%s: larger than the input in modulus: %s -> %s" % (what, x, y))
    # y = |y| x/|x|
    z = np.where(ax > 0, x / np.where(ax > 0, ax, 1) * ay, 0)
    if np.any(np.abs(z - y) > 1e-9 * ax):
        raise Violation("%s: sign or phase changed: %s -> %s" % (what, x, y))


def draw_pen(draw, name):
    o = ops.REG[name]
    n = draw(st.integers(1, 5))
    p = o.spec(draw, n, draw(st.booleans()))
    unit = draw(st.sampled_from([1e-6, 1e-5, 1e-3, 1e4])) if name in UNITS and draw(st.integers(0, 4)) == 0 else None
    if unit is not None:            # the same problem in other units of length
        p = dict(p, **{k: p[k] * unit ** e for k, e in UNITS[name].items()})
    elif "gamma" in p and p["gamma"] > 0 and draw(st.integers(0, 5)) == 0:       # close to the limits of the penalty
        p = dict(p, gamma=draw(st.sampled_from([1e-4, 1e-3, 1e-2, 10.0, 30.0])))
    extra = [0.9, 0.95, 0.93, 0.97, 0.99, 0.999, 1.0, 1.01, 1.1]
    if hasattr(o, "maxtau"):
        extra += [f * o.maxtau(p) for f in (0.3, 0.5, 0.7, 0.9, 0.97, 1.0)]
    tau = draw(st.sampled_from(extra)) if draw(st.integers(0, 2)) == 0 else gen.pos(draw)
    if hasattr(o, "maxtau"):
        tau = min(tau, o.maxtau(p))
    if unit is not None:
        x = gen.arr(o.x(draw, p, tau))
        if draw(st.booleans()):
            x = x * np.where(np.abs(x) > 30 * unit, unit, 1.0)
        return {"p": p, "tau": tau, "x": {"re": x.real.tolist(), "im": x.imag.tolist()} if p["cplx"] else x.tolist()}
    return {"p": p, "tau": tau, "x": o.x(draw, p, tau)}


# powers of the unit of length in the parameters, for a prox which scales with it
UNITS = {"L0": {"sigma": 1}, "Log": {"sigma": 2, "gamma": -1}, "ETP": {"sigma": 2, "gamma": -1}, "Geman": {"sigma": 2, "gamma": 1},
         "SCAD": {"sigma": 1}, "QECard": {"mu": 2}}


def make(name, quick, glob=True):
    strat = gen.mk(lambda draw: draw_pen(draw, name))

    def fn(c):
        p, tau = c["p"], c["tau"]
        o = ops.get(p)
        x = o.arr(p, c["x"])
        op = o.build(p)
        y = out(op.prox(x.copy(), tau), x.shape, name + ".prox", cplx=None if p["cplx"] else False)
        what = "%s.prox(tau=%g)" % (name, tau)
        phase_ok(x, y, what)
        ym = op.prox(-x, tau)
        if not close(ym, -y, np.max(np.abs(x)), 1e-12):
            raise Violation("%s is not odd: prox(-x)=%s, -prox(x)=%s" % (what, ym, -y))
        if name == "QECard" and tau >= 1:
            t = math.sqrt(2 * p["mu"])
            for a, b in zip(x, y):
                if abs(abs(a) - t) > 1e-9 * t:
                    same(b, a if abs(a) > t else 0 * a, what, abs(a), 1e-12)
        elif glob:
            for a, b in zip(np.abs(x).tolist(), np.abs(y).tolist()):
                f = o.phi(p, b) + (b - a) ** 2 / (2 * tau)
                m = gmin(lambda r: o.phi(p, r), a, tau, o.special(p, tau))
                tol = 1e-9 * (o.phi(p, a) + a * a / (2 * tau)) + 1e-13 * abs(f) + 1e-13 * p.get("mu", 0.0)
                if f > m + tol:
                    raise Violation("%s is not the global minimum at |x|=%r: |y|=%r has objective %.17g, minimum %.17g"
                                    % (what, a, b, f, m))
        if hasattr(o, "prox"):
            ref = o.prox(p, x, tau)
            sp = o.special(p, tau)
            for a, b, r in zip(x, y, ref):
                # at a jump of the rule either side is accepted, up to rounding of the threshold
                if abs(abs(a) - sp[0]) <= 1e-9 * sp[0] and not (
                        name == "L0" and not p["cplx"] and abs(a) == sp[0]):
                    continue
                rt = 1e-9 if p["op"] != "Log1" else 1e-7
                same(b, r, what + " against the documented rule at %s" % a, abs(a), rt)
        moved = np.sum(y != x) > 0
        return ("cplx" if p["cplx"] else "real") if moved and gen.nontriv(x) else ""
    sub(name, strat, quick=quick)(fn)


make("L0", 600, glob=False)
make("Log1", 600, glob=False)
make("RelaxedMS", 600, glob=False)
for _n in ("Log", "ETP", "Geman", "SCAD", "QECard"):
    make(_n, 900)


@gen.mk
def qeci(draw):
    o = ops.REG["QECardInd"]
    n = draw(st.integers(1, 7))
    p = o.spec(draw, n, draw(st.booleans()))
    tau = draw(st.sampled_from([0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0, 1.5, 2.0])) if draw(st.booleans()) else gen.pos(draw)
    x = gen.vec(draw, n, p["cplx"], scale=False, style=draw(st.sampled_from([(3, 1), (8, 2), (1000, 100)])))
    return {"p": p, "tau": tau, "x": x}


@sub("QECardInd", qeci, quick=600)
def _(c):
    p, tau = c["p"], c["tau"]
    o = ops.get(p)
    x = gen.arr(c["x"])
    y = out(o.build(p).prox(x.copy(), tau), x.shape, "QECardInd.prox")
    what = "QuadraticEnvelopeCardIndicator.prox(r0=%d, tau=%g)" % (p["r0"], tau)
    phase_ok(x, y, what)
    a, b = np.abs(x), np.abs(y)
    sc = ops.fsum(a) ** 2 * (1 + 1 / tau) + 1e-280

    def obj(z):
        return o.val({"r0": p["r0"]}, z) + ops.fsum((z - a) ** 2) / (2 * tau)
    f = obj(b)
    k = min(p["r0"], a.size)
    hard = a.copy()
    hard[np.argsort(a)[: a.size - k]] = 0
    cands = [a, np.zeros_like(a), hard]
    m = float(np.max(a))
    eye = np.eye(a.size)
    for h in (1e-1, 1e-2, 1e-4):
        for i in range(a.size):
            cands += [np.abs(b + h * m * eye[i]), np.abs(b - h * m * eye[i])]
        for z in (a, hard, np.zeros_like(a), np.ones_like(a) * m):
            cands.append(b + h * (z - b))
    for z in cands:
        if obj(z) < f - 1e-11 * sc:
            raise Violation("%s is not a minimum: %s -> %s has objective %.17g, %s has %.17g" % (what, a, b, f, z, obj(z)))
    return "keep" if np.array_equal(y, x) else ("tau<1" if tau < 1 else "tau>=1")


@gen.mk
def rank(draw):
    m, n = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    k = min(m, n)
    c = {"m": m, "n": n, "r0": draw(st.integers(1, k - 1)), "tau": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0])),
         "diag": draw(st.booleans())}
    cplx = draw(st.booleans())
    if c["diag"]:
        c["x"], c["M"] = gen.rvec(draw, k, scale=False), gen.rvec(draw, k, scale=False)
    else:
        c["x"], c["M"] = gen.vec(draw, m * n, cplx, scale=False), gen.vec(draw, m * n, cplx, scale=False)
    return c


@sub("RankL2", rank, quick=400)
def _(c):
    """R_r0(Z) + |Z-M|^2/2 + |Z-X|^2/(2 tau) is convex in Z: no perturbed point is better"""
    m, n = c["m"], c["n"]
    if c["diag"]:
        X, M = np.zeros((m, n)), np.zeros((m, n))
        for i, (u, v) in enumerate(zip(c["x"], c["M"])):
            X[i, i], M[i, i] = u, v
    else:
        X, M = gen.arr(c["x"], (m, n)), gen.arr(c["M"], (m, n))
    tau = c["tau"]
    op = pp.QuadraticEnvelopeRankL2((m, n), c["r0"], M.copy())
    Z = out(op.prox(X.ravel().copy(), tau), (m * n,), "RankL2.prox").reshape(m, n)

    def obj(W):
        S = ops.svals(W)
        return (0.5 * ops.ksupport2(S, c["r0"]) - 0.5 * ops.fsum(S ** 2) + 0.5 * nrm(W - M) ** 2
                + nrm(W - X) ** 2 / (2 * tau))
    f = obj(Z)
    sc = (nrm(X) + nrm(M)) ** 2 * (1 + 1 / tau) + 1e-280
    base = [X - Z, M - Z, -Z, (M + X / tau) / (1 + 1 / tau) - Z]
    U, S, V = np.linalg.svd(Z, full_matrices=False)
    nz = nrm(X) + nrm(M)
    for i in range(S.size):
        base.append(nz * np.outer(U[:, i], V[i]))
    for i in range(m):
        for j in range(n):
            E = np.zeros((m, n))
            E[i, j] = nz
            base.append(E)
    for D in base:
        for h in (1.0, 1e-1, 1e-2, 1e-4):
            for s in (1, -1):
                g = obj(Z + s * h * D)
                if g < f - 1e-11 * sc:
                    raise Violation("RankL2.prox(r0=%d, tau=%g) is not a minimum: %.17g against %.17g" % (c["r0"], tau, f, g))
    return "diag" if c["diag"] else "full"
