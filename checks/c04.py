"""C04 projections return the nearest point of their set."""
import math

import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal import projection as pj
from vlib import gen, ops
from vlib.core import Violation, sub
from vlib.util import nrm, out, rdot, same

RULE = ("cases: a set with drawn parameters and a drawn point (interior, boundary, exterior, ties, zeros, negatives, "
        "complex for balls, Hankel and L0 sets); non-trivial: the point is outside of the set, or is a non-zero "
        "interior point that must be returned unchanged")
ASSUMPTIONS = ["exact reference projections (sorting, SVD, KKT, least squares, NNLS) in vlib/ops.py",
               "accuracy of bisection/conjugate gradient based projections as configured by their tolerances"]


def tol_of(o, p, x):
    return o.acc(p, x) + 1e-9 * (1 + float(np.max(np.abs(x), initial=0)))


# parameters that scale with the unit of the points
UNITS = {"Box": ["lo", "hi"], "EuclideanBall": ["center", "radius"], "HalfSpace": ["b"], "AffineSet": ["b"],
         "Hankel": [], "L0Ball": [], "L10Ball": []}


def proj_object(p):
    """the projection class behind the operator, called directly"""
    o = ops.get(p)
    n = p["op"]
    if n == "Box":
        kw = {}
        lo, hi = o.lohi(p)
        if "lo" in p:
            kw["lower"] = lo
        if "hi" in p:
            kw["upper"] = hi
        return pj.BoxProj(**kw)
    if n == "EuclideanBall":
        return pj.EuclideanBallProj(o.c(p), p["radius"])
    if n == "L1Ball":
        return pj.L1BallProj(p["n"], p["radius"], xtol=p["xtol"])
    if n == "SimplexSet":
        return pj.SimplexProj(p["n"], p["radius"], xtol=p["xtol"])
    if n == "HalfSpace":
        return pj.HalfSpaceProj(np.array(p["w"]), p["b"])
    if n == "AffineSet":
        return pj.AffineSetProj(pylops.MatrixMult(o.A(p), dtype=o.A(p).dtype), gen.arr(p["b"]), 50 * p["m"] + 50)
    if n == "NuclearBall":
        b = pj.NuclearBallProj(min(p["m"], p["n"]), p["radius"], xtol=p["xtol"])
        return lambda x: b(x.reshape(p["m"], p["n"])).ravel()
    if n == "Hankel":
        h = pj.HankelProj()
        return lambda x: h(x.reshape(p["m"], p["n"])).ravel()
    if n == "L0Ball":
        return pj.L0BallProj(p["radius"])
    if n == "L10Ball":
        b = pj.L10BallProj(p["radius"])
        return lambda x: b(x.reshape(p["nd"], p["n"])).ravel()
    raise AssertionError(n)


def make(name, quick):
    @gen.mk
    def strat(draw):
        o = ops.REG[name]
        p = o.spec(draw, gen.dim(draw, 6), draw(st.booleans()))
        c = {"p": p, "tau": gen.pos(draw), "x": o.x(draw, p), "direct": draw(st.booleans())}
        if draw(st.integers(0, 3)) == 0:
            c["shrink"] = draw(st.sampled_from([0.1, 0.5, 0.9, 1.0]))
        if name in UNITS and draw(st.integers(0, 3)) == 0:
            c["unit"] = draw(st.integers(-9, 7))
        if name == "HalfSpace" and draw(st.integers(0, 3)) == 0:
            c["wunit"] = draw(st.sampled_from([-60, -25, -20, -12, -8, -4, 4, 12, 60]))
        return c

    def fn(c):
        p = c["p"]
        o = ops.get(p)
        x = o.arr(p, c["x"])
        if "unit" in c:     # the same set and point in other units
            u = 10.0 ** c["unit"]
            p = dict(p)
            for k in UNITS[name]:
                if k in p:
                    p[k] = gen.scale(p[k], u)
            x = x * u
        if "shrink" in c and o.convex:      # a point of the set: between its projection and another member
            z = o.prox(p, np.zeros_like(x), 1.0)
            x = z + c["shrink"] * (o.prox(p, x, 1.0) - z)
        q = p
        if "wunit" in c:    # the same half space, its inequality multiplied by a number
            q = dict(p, w=gen.scale(p["w"], 10.0 ** c["wunit"]), b=p["b"] * 10.0 ** c["wunit"])
        P = proj_object(q) if c["direct"] else None
        op = o.build(q)
        call = (lambda v: P(v)) if c["direct"] else (lambda v: op.prox(v, c["tau"]))
        what = "%s projection" % name
        y = out(call(x.copy()), x.shape, what, cplx=None if np.iscomplexobj(x) else False)
        tol = tol_of(o, p, x) if "unit" not in c else o.acc(p, x) + 1e-9 * (
            float(np.max(np.abs(x), initial=0)) + sum(gen.size(p[k]) for k in UNITS[name] if k in p))
        if o.convex:
            ref = o.prox(p, x, 1.0)
            if np.max(np.abs(y - ref)) > tol:
                raise Violation("%s of %s:\n got     %s\n nearest %s" % (what, x, y, ref))
        else:
            if o.viol(p, y) > 0:
                raise Violation("%s of %s is not in the set: %s" % (what, x, y))
            d, m = nrm(y - x) ** 2, o.dist2(p, x)
            if d > m * (1 + 1e-9) + (0 if "unit" in c else 1e-300):
                raise Violation("%s of %s: %s at squared distance %.17g, nearest %.17g" % (what, x, y, d, m))
        v = o.viol(p, x)
        if v == 0 and np.max(np.abs(y - x)) > tol:
            raise Violation("%s changed a point of the set: %s -> %s" % (what, x, y))
        yy = call(y.copy())
        if np.max(np.abs(yy - y)) > 2 * tol:
            raise Violation("%s is not idempotent: %s -> %s -> %s" % (what, x, y, yy))
        if not c["direct"]:
            y2 = o.build(q).prox(x.copy(), 2.5 * c["tau"])
            if np.max(np.abs(y2 - y)) > 2 * tol:
                raise Violation("%s depends on tau: %s and %s" % (what, y, y2))
        if v > 1e-8 * (u if "unit" in c else 1):
            return "outside-cplx" if p["cplx"] else "outside"
        return "inside" if gen.nontriv(x) else ""
    sub(name, strat, quick=quick)(fn)


for _n in ops.CONVEX_IND + ["L0Ball", "L10Ball"]:
    make(_n, 500)


@gen.mk
def barely(draw):
    n = gen.dim(draw, 6)
    return {"set": draw(st.sampled_from(["HalfSpace", "EuclideanBall", "Box", "L1Ball"])), "w": gen.rvec(draw, n, (8, 2), scale=False), "n": n, "b": draw(st.sampled_from([1.0, 1e3, 1e-3, 1e6, -1e3, -1.0, 1e-6])),
            "d": draw(st.sampled_from([1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4])), "z": gen.rvec(draw, n, (8, 2), scale=False), "direct": draw(st.booleans()), "out": draw(st.integers(0, 3)) > 0}


@sub("barely_outside", barely, quick=400)
def _(c):
    """points at a small fraction of the size of the set from its boundary, on either side"""
    n, b = c["n"], c["b"]
    w = np.array(c["w"])
    if not w.any():
        return ""
    u = w / np.linalg.norm(w)
    d = c["d"] * abs(b) * (1 if c["out"] else -1)
    name = c["set"]
    if name == "HalfSpace":
        t = np.array(c["z"]) * abs(b)
        t = t - u * np.dot(u, t)
        face = t + u * (b / np.linalg.norm(w))
        x = face + d * u
        op, P = pp.HalfSpace(w.copy(), b), pj.HalfSpaceProj(w.copy(), b)
    elif name == "EuclideanBall":
        ce = np.array(c["z"]) * abs(b)
        face = ce + abs(b) * u
        x = face + d * u
        op, P = pp.EuclideanBall(ce.copy(), abs(b)), pj.EuclideanBallProj(ce.copy(), abs(b))
    elif name == "Box":
        lo = np.array(c["z"]) * abs(b)
        hi = lo + abs(b)
        face = np.where(w > 0, hi, lo)
        x = np.where(w != 0, face + d * np.sign(w), 0.5 * (lo + hi))
        face = np.where(w != 0, face, x)
        op, P = pp.Box(lo.copy(), hi.copy()), pj.BoxProj(lo.copy(), hi.copy())
    else:
        face = w / np.sum(np.abs(w)) * abs(b)
        x = face + d * np.sign(w)
        op, P = pp.L1Ball(n, abs(b), xtol=1e-13 * abs(b)), pj.L1BallProj(n, abs(b), xtol=1e-13 * abs(b))
    y = out(P(x.copy()) if c["direct"] else op.prox(x.copy(), 0.7), x.shape, name, cplx=False)
    ref = face if c["out"] else x
    if np.max(np.abs(y - ref)) > 1e-12 * abs(b) * (4 + gen.size(c["z"])) * n:
        raise Violation("%s (size %g): the point %s, %s by %g, is sent to %s; nearest %s" % (name, b, x, "outside" if c["out"] else "inside", abs(d), y, ref))
    return name if c["out"] else ""


@gen.mk
def tight(draw):
    m, n = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {"set": draw(st.sampled_from(["L1Ball", "Simplex", "NuclearBall"])), "m": m, "n": n, "x": gen.rvec(draw, m * n, (8, 4), scale=False),
            "radius": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])), "xtol": 10.0 ** -draw(st.integers(3, 14)), "direct": draw(st.booleans())}


@sub("tight_tolerance", tight, quick=400)
def _(c):
    """projections found by bisection are as accurate as their tolerance asks for"""
    x, r, name = np.array(c["x"]), c["radius"], c["set"]
    m, n, t = c["m"], c["n"], c["xtol"]
    kw = dict(xtol=t, maxiter=200)
    if name == "L1Ball":
        P = pj.L1BallProj(x.size, r, **kw) if c["direct"] else pp.L1Ball(x.size, r, **kw)
        ref = ops.proj_l1(x, r)
    elif name == "Simplex":
        P = pj.SimplexProj(x.size, r, **kw) if c["direct"] else pp.Simplex(x.size, r, engine="numpy", **kw)
        ref = ops.proj_simplex(x, r)
    else:
        B = pj.NuclearBallProj(min(m, n), r, **kw) if c["direct"] else pp.NuclearBall((m, n), r, **kw)
        P = (lambda v: B(v.reshape(m, n)).ravel()) if c["direct"] else B
        U, s, V = np.linalg.svd(x.reshape(m, n), full_matrices=False)
        ref = ((U * ops.proj_l1(s, r)) @ V).ravel()
    y = out(P(x.copy()) if hasattr(P, "prox") is False else P.prox(x.copy(), 1.0), x.shape, name, cplx=False)
    k = min(m, n) if name == "NuclearBall" else 1
    if np.max(np.abs(y - ref)) > 1.01 * t * k + 2e-14 * (1 + np.max(np.abs(x))) * x.size:
        raise Violation("%s(radius %g, xtol=%g) of %s: got %s, nearest %s, error %g" % (name, r, t, x, y, ref, np.max(np.abs(y - ref))))
    return name if nrm(ref - x) > 0 and x.size > 1 else ""


@gen.mk
def hbox(draw):
    n = gen.dim(draw, 6)
    style = draw(st.sampled_from(gen.STYLES[:5]))
    c = {"x": gen.rvec(draw, n), "c": gen.rvec(draw, n, style, scale=False), "array": draw(st.booleans()),
         "xtol": draw(st.sampled_from([1e-5, 1e-8, 1e-10])), "as2d": n % 2 == 0 and draw(st.booleans()), "layout": draw(st.sampled_from(["C", "C", "F", "T"]))}
    if not any(c["c"]):
        c["c"][0] = 1.0
    kinds = [draw(st.integers(0, 3)) for _ in range(n if c["array"] else 1)]
    lo, hi = [], []
    for k in kinds:
        a, b = sorted([gen.num(draw, style=style), gen.num(draw, style=style)])
        if b - a < 0.5:
            b = a + 1.0
        lo.append(a if k in (0, 1) else None)
        hi.append(b if k in (0, 2) else None)
    c["lo"], c["hi"] = lo, hi
    if draw(st.integers(0, 3)) == 0:      # a point far away
        f = 10.0 ** draw(st.integers(2, 7))
        c["x"] = [v * f for v in c["x"]]
    c["w"] = [draw(st.integers(1, 9)) / 10 for _ in range(n)]   # a strictly interior point fixes the scalar
    return c


@sub("HyperPlaneBox", hbox, quick=600)
def _(c):
    x, a = np.array(c["x"]), np.array(c["c"])
    n = x.size
    lo = np.array([-np.inf if v is None else v for v in c["lo"]])
    hi = np.array([np.inf if v is None else v for v in c["hi"]])
    L, H = np.broadcast_to(lo, (n,)), np.broadcast_to(hi, (n,))
    w = np.array(c["w"])
    fl, fh = np.isfinite(L), np.isfinite(H)
    z = np.where(fl & fh, L + w * (np.where(fh, H, 0) - np.where(fl, L, 0)),
                 np.where(fl, L + w, np.where(fh, H - w, w)))
    s = float(a @ z)
    P = pj.HyperPlaneBoxProj(a, s, lower=lo if c["array"] else float(lo[0]), upper=hi if c["array"] else float(hi[0]),
                             xtol=c["xtol"])
    xin = x.reshape(2, n // 2) if c["as2d"] else x
    if c["as2d"] and c.get("layout", "C") != "C":     # the same matrix stored by columns / a transposed view
        xin = np.asfortranarray(xin) if c["layout"] == "F" else np.ascontiguousarray(xin.T).T
    y = out(P(xin.copy(order="K")), xin.shape, "HyperPlaneBoxProj").ravel()
    # exact multiplier: f(mu) = a.clip(x - mu a) is piecewise linear and non-increasing
    f = lambda mu: float(a @ np.clip(x - mu * a, L, H)) - s
    br = []
    for xi, ai, li, hi_ in zip(x, a, L, H):
        if ai:
            br += [v for v in ((xi - li) / ai, (xi - hi_) / ai) if np.isfinite(v)]
    br = sorted(set(br))
    pts = ([br[0] - 1.0] + br + [br[-1] + 1.0]) if br else [0.0, 1.0]
    k = 0
    vals = [f(m) for m in pts]
    while k < len(pts) - 2 and vals[k + 1] > 0:
        k += 1
    m0, m1, f0, f1 = pts[k], pts[k + 1], vals[k], vals[k + 1]
    free = (x - (m0 + m1) / 2 * a > L) & (x - (m0 + m1) / 2 * a < H)
    slope = float(np.sum(a[free] ** 2))
    if br and k == 0 and slope > 0:                # outer pieces: from their end with the exact slope
        mu = m1 + f1 / slope
    elif br and k == len(pts) - 2 and slope > 0:
        mu = m0 + f0 / slope
    elif f0 == f1:
        mu = m0 if f0 == 0 else (m0 + m1) / 2
    else:
        mu = m0 + f0 * (m1 - m0) / (f0 - f1)     # linear piece (extrapolates on the outer ones)
    ref = np.clip(x - mu * a, L, H)
    acc = 1.01 * c["xtol"] * float(np.max(np.abs(a))) + 1e-9 * (1 + float(np.max(np.abs(x))) + float(np.max(np.abs(ref))))
    if np.max(np.abs(y - ref)) > acc:
        # flat pieces: several multipliers, same projection; compare by feasibility and distance as well
        raise Violation("HyperPlaneBoxProj of %s: got %s, nearest %s (a.y-s = %g)" % (x, y, ref, a @ y - s))
    return "active" if np.any((ref == L) | (ref == H)) else "free"


@gen.mk
def inter(draw):
    k, n = draw(st.integers(2, 4)), draw(st.integers(1, 3))
    c = {"k": k, "n": n, "x": gen.rvec(draw, k * n, scale=False)}
    if draw(st.booleans()):
        c["sigma"] = gen.pos(draw)
    else:
        c["S"] = [gen.pos(draw) for _ in range(k * k)]
        if draw(st.booleans()):
            S = np.array(c["S"]).reshape(k, k)
            c["S"] = ((S + S.T) / 2).ravel().tolist()
    c["direct"] = draw(st.booleans())
    return c


@sub("Intersection", inter, quick=300)
def _(c):
    """|x_i1 - x_i2| <= sigma_i1i2 for i1 < i2: nearest point from the dual NNLS problem, column by column"""
    k, n = c["k"], c["n"]
    S = np.array(c["S"]).reshape(k, k) if "S" in c else np.full((k, k), c["sigma"])
    arg = S.copy() if "S" in c else c["sigma"]
    x = gen.arr(c["x"])

    def call(niter):
        if c["direct"]:
            y = pj.IntersectionProj(k, n, arg, niter=niter, tol=0)(x.copy())
        else:
            y = pp.Intersection(k, n, arg, niter=niter, tol=0).prox(x.copy(), 1.3)
        return out(y, x.shape, "Intersection").reshape(k, n)
    G, h = [], []
    for i in range(k):
        for j in range(i + 1, k):
            r = np.zeros(k)
            r[i], r[j] = 1, -1
            G += [r, -r]
            h += [S[i, j]] * 2
    G, h = np.array(G), np.array(h)
    X = x.reshape(k, n)
    ref = np.stack([ops.ldp(G, h, X[:, j]) for j in range(n)], axis=1)
    tol = 1e-6 * (1 + np.max(np.abs(X)))
    y = call(200)
    if np.max(np.abs(ref - y)) > tol:      # the alternating projections may need more iterations
        y = call(8000)
        tol += k * float(np.min(S))      # Dykstra stalls for long on tiny bounds, within their size
        if np.max(np.abs(ref - y)) > tol:
            raise Violation("Intersection projection of %s:\n got %s\n nearest %s" % (X, y, ref))
    moved = bool(np.max(np.abs(ref - X)) > 1e-8)
    return "moved" if moved else ("inside" if gen.nontriv(x) else "")


@gen.mk
def intermany(draw):
    k = draw(st.integers(5, 8))
    return {"k": k, "x": gen.rvec(draw, k, style=(40, 2), scale=False), "s": draw(st.sampled_from([0.01, 0.1, 1.0])), "seed": draw(st.integers(0, 999)) if draw(st.booleans()) else None,
            "niter": draw(st.sampled_from([100, 300, 1000]))}


@sub("Intersection_many", intermany, quick=40)
def _(c):
    """many vectors far apart and small bounds: as close to the nearest point as the cyclic corrected projections get in the same number of rounds"""
    k, N, x = c["k"], c["niter"], gen.arr(c["x"])
    S = np.full((k, k), c["s"]) if c["seed"] is None else c["s"] * gen.rng(c["seed"]).uniform(0.2, 2, (k, k))
    y = out(pj.IntersectionProj(k, 1, S.copy(), niter=N, tol=0)(x.copy()), x.shape, "Intersection")
    I, J = np.triu_indices(k, 1)
    G = np.zeros((2 * I.size, k))
    h = np.repeat(S[I, J], 2)
    for r, (i, j) in enumerate(zip(I, J)):
        G[2 * r, i], G[2 * r, j], G[2 * r + 1, i], G[2 * r + 1, j] = 1, -1, -1, 1
    ref = ops.ldp(G, h, x)
    z, cor = [float(v) for v in x], {}
    pairs = [(int(i), int(j), float(S[i, j])) for i, j in zip(I, J)]
    for _ in range(N):
        for i, j, s in pairs:
            o = cor.get((i, j), 0.0)        # correction: the part removed from the difference
            d = z[j] - z[i] + o
            m = max(abs(d) - s, 0.0) * (1.0 if d > 0 else -1.0)
            z[i] += (m - o) / 2
            z[j] -= (m - o) / 2
            cor[i, j] = m
    e, er = float(np.max(np.abs(y - ref))), float(np.max(np.abs(np.array(z) - ref)))
    if e > 10 * er + 1e-6 * (1 + np.max(np.abs(x))):
        raise Violation("Intersection projection of %s (bounds %s) after %d rounds is at distance %g of the nearest point; corrected cyclic projections reach %g" % (x, S.tolist(), N, e, er))
    return "moved" if np.max(np.abs(ref - x)) > 1e-3 else ""


@gen.mk
def interstop(draw):
    c = {"k": draw(st.integers(2, 5)), "n": draw(st.integers(1, 4)), "direct": draw(st.booleans()), "niter": draw(st.integers(1, 40)),
         "tol": draw(st.sampled_from([1e-12, 1e-6, 1e-5, 1e-3, 1e-2, 0.1, 0.5, 2.0]))}
    c["x"] = gen.rvec(draw, c["k"] * c["n"], style=draw(st.sampled_from([(3, 1), (8, 2), (20, 4)])), scale=False)
    if draw(st.booleans()):
        c["sigma"] = draw(st.sampled_from([0.1, 0.5, 1.0, 3.0]))
    else:
        c["S"] = [draw(st.sampled_from([0.1, 0.5, 1.0, 3.0, 0.7])) for _ in range(c["k"] ** 2)]
    return c


@sub("Intersection_stop", interstop, quick=300)
def _(c):
    """the iterations end as soon as no column changes by tol (l1 norm) or more, and not before"""
    k, n, t = c["k"], c["n"], c["tol"]
    S = np.array(c["S"]).reshape(k, k) if "S" in c else c["sigma"]
    x = gen.arr(c["x"])

    def call(niter, tol):
        a = S.copy() if "S" in c else S
        y = pj.IntersectionProj(k, n, a, niter=niter, tol=tol)(x.copy()) if c["direct"] else \
            pp.Intersection(k, n, a, niter=niter, tol=tol).prox(x.copy(), 1.3)
        return out(y, x.shape, "Intersection").reshape(k, n)
    its = [x.reshape(k, n)]
    stop = None
    for i in range(1, c["niter"] + 1):
        its.append(call(i, 0))
        d = float(np.max(np.sum(np.abs(its[i] - its[i - 1]), axis=0)))
        if abs(d - t) <= 1e-6 * t + 1e-14 * (1 + np.max(np.abs(x))):
            return ""       # a tie
        if d < t:
            stop = i
            break
    y = call(c["niter"], t)
    ref = its[stop or c["niter"]]
    if np.max(np.abs(y - ref)) > 1e-12 * (1 + np.max(np.abs(x))):
        raise Violation("Intersection of %s with niter=%d and tol=%g: got\n%s\n expected the iterate %s\n%s" % (
            its[0], c["niter"], t, y, stop or c["niter"], ref))
    return "stopped" if stop and 1 < stop < c["niter"] and n > 1 else ""
