"""C09 sums and intersections via Dykstra."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from pyproximal import projection as pj
from vlib import gen, ops
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: one to five convex functions or sets (with a drawn common point), weights, mode, step convention, point; "
        "non-trivial: at least two terms active at the answer (the answer differs from every single prox/projection)")
ASSUMPTIONS = ["separable sums are minimised exactly by bisection of the subgradient, intersections of half spaces, "
               "boxes and one ball by NNLS and bisection of the ball multiplier",
               "weights are normalised as documented; Dykstra may need many iterations: 1500 first, 40000 before judging"]

FUN = ["L1", "L2", "Huber", "Box"]
NONSEP = ["Euclidean", "HalfSpace", "EuclideanBall", "L2Op", "L1", "L2", "Box", "Huber", "L21", "Quadratic", "HuberCircular"]


def weights(draw, m):
    w = [draw(st.integers(1, 9)) for _ in range(m)]
    return (np.array(w) / np.sum(w)).tolist()


def subgrad(p, i, y):
    """interval of the derivative of the i-th component at y; +-inf outside of a box"""
    n = p["op"]
    if n == "L1":
        g = gen.arr(p["g"])[i] if "g" in p else 0.0
        s = p["sigma"]
        return (-s, -s) if y < g else ((s, s) if y > g else (-s, s))
    if n == "L2":
        b = gen.arr(p["b"])[i] if "b" in p else 0.0
        v = p["sigma"] * (y - b) + (p["alpha"] * p["q"][i] if "q" in p else 0.0)
        return v, v
    if n == "Huber":
        v = y / p["alpha"] if abs(y) <= p["alpha"] else float(np.sign(y))
        return v, v
    lo, hi = ops.REG["Box"].lohi(p)
    lo, hi = np.broadcast_to(lo, (p["n"],))[i], np.broadcast_to(hi, (p["n"],))[i]
    return (-np.inf if y <= lo else 0.0, np.inf if y >= hi else 0.0)


def exact_separable(ps, ss, x, tau):
    """argmin sum_k ss_k f_k(y) + |y-x|^2/(2 tau), entry by entry"""
    o = np.zeros_like(x)
    for i, v in enumerate(x):
        lo, hi = -1e9, 1e9
        for p in ps:
            if p["op"] == "Box":
                l, h = ops.REG["Box"].lohi(p)
                lo = max(lo, float(np.broadcast_to(l, x.shape)[i]))
                hi = min(hi, float(np.broadcast_to(h, x.shape)[i]))
        a, b = lo, hi
        for _ in range(200):
            y = 0.5 * (a + b)
            if y <= a or y >= b:
                break
            d = (y - v) / tau
            for p, s in zip(ps, ss):
                if p["op"] != "Box":
                    g = subgrad(p, i, y)
                    d += s * 0.5 * (g[0] + g[1])
            if d > 0:
                b = y
            else:
                a = y
        o[i] = 0.5 * (a + b)
    return o


def draw_fun(draw, n, names, z):
    """spec of a function/set; sets contain z"""
    name = draw(st.sampled_from(names))
    o = ops.REG[name]
    p = o.spec(draw, n)
    if name == "L21":
        p["nd"], p["n"] = 1, n
    if name == "Box":
        a = [abs(gen.num(draw, style=(8, 4))) for _ in range(2 * n)]
        p.pop("lo", None), p.pop("hi", None)
        k = draw(st.integers(0, 2))
        if k != 1:
            p["lo"] = [v - s for v, s in zip(z, a[:n])]
        if k != 0:
            p["hi"] = [v + s for v, s in zip(z, a[n:])]
    if name == "HalfSpace":
        p["b"] = float(np.dot(p["w"], z)) + draw(st.sampled_from([0.1, 0.5, 1.0, 3.0]))
    if name == "EuclideanBall":
        p["center"] = [v + gen.num(draw, style=(8, 4)) for v in z]
        p["radius"] = float(np.linalg.norm(np.array(p["center"]) - np.array(z))) + draw(st.sampled_from([0.25, 0.5, 1.0]))
    for k in ("b", "g", "q"):
        if isinstance(p.get(k), list):
            p[k] = gen.rvec(draw, len(p[k]), (8, 2), scale=False)
    for k in ("sigma", "alpha"):
        if k in p:
            p[k] = draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0]))
    return p


def small(draw, n):
    return gen.rvec(draw, n, draw(st.sampled_from([(3, 1), (8, 2)])), scale=False)


def fcase(names):
    @gen.mk
    def strat(draw):
        n = draw(st.integers(1, 4))
        m = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
        z = small(draw, n)
        c = {"ps": [draw_fun(draw, n, names, z) for _ in range(m)], "tau": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0])),
             "x": small(draw, n), "par": draw(st.booleans()), "orig": draw(st.booleans())}
        if draw(st.booleans()):
            c["w"] = weights(draw, m) if m > 1 else [draw(st.sampled_from([1.0, 2.0, 0.3, 5.0]))]
        c["wl"] = draw(st.booleans())
        return c
    return strat


def factors(c):
    """multiplier of each f_k in the minimised sum, and whether the parallel scheme is used"""
    m = len(c["ps"])
    par = m > 2 or (m == 2 and c["par"])
    w = c.get("w", [1.0 / m] * m)
    return (list(w) if par and c["orig"] else [1.0] * m), par, w


def make_sum(c, niter, tol=0.0):
    kw = {}
    if "w" in c:
        kw["weights"] = list(c["w"]) if c["wl"] else np.array(c["w"])
    return pp.Sum([ops.build(p) for p in c["ps"]], niter=niter, tol=tol, use_parallel=c["par"],
                  use_original_tau=c["orig"], **kw)


def single_all(c, x, tau, y):
    return all(nrm(ops.get(p).prox(p, x, tau) - y) > 1e-7 for p in c["ps"]) if len(c["ps"]) > 1 else nrm(x - y) > 0


@sub("sum_separable", fcase(FUN), quick=250)
def _(c):
    x, tau = gen.arr(c["x"]), c["tau"]
    f, par, _ = factors(c)
    ref = exact_separable(c["ps"], f, x, tau)
    lim = 1e-6 * (1 + mx(x) + mx(ref))
    for k in (100, 1000):
        y = out(make_sum(c, k).prox(x.copy(), tau), x.shape, "Sum.prox", cplx=False)
        if mx(y - ref) <= lim:
            break
    else:
        y = out(make_sum(c, 20000).prox(x.copy(), tau), x.shape, "Sum.prox", cplx=False)
        if mx(y - ref) > 10 * lim:
            raise Violation("Sum(%s, parallel=%s, original_tau=%s).prox(tau=%g): got %s, minimiser %s" % (
                [p["op"] for p in c["ps"]], par, c["orig"], tau, y, ref))
    lab = "%d%s%s%s" % (len(c["ps"]), "par" if par else "seq", "orig" if par and c["orig"] else "", "w" if "w" in c else "")
    return lab if single_all(c, x, tau, y) else ""


@sub("sum_recursion", fcase(NONSEP), quick=500)
def _(c):
    """the first iterates of the documented schemes"""
    x0, tau = gen.arr(c["x"]), c["tau"]
    f, par, w = factors(c)
    m = len(c["ps"])
    prox = [lambda v, t, p=p: ops.get(p).prox(p, v, t) for p in c["ps"]]
    x = x0.copy()
    p, q = np.zeros_like(x), np.zeros_like(x)
    z = [x0.copy() for _ in range(m)]
    w = np.array(w)
    big = mx(x0)
    for k in range(1, 6):
        if m == 1:
            x = prox[0](x0, tau)
        elif not par:
            y = prox[0](x + p, tau)
            p = p + x - y
            x = prox[1](y + q, tau)
            q = q + y - x
            big = max(big, mx(p), mx(q), mx(x), mx(y))
        else:
            t = [tau] * m if c["orig"] else [tau / wi for wi in w]
            pz = [prox[i](z[i], t[i]) for i in range(m)]
            x = sum(w[i] * pz[i] for i in range(m))
            z = [z[i] + x - pz[i] for i in range(m)]
            big = max([big, mx(x)] + [mx(v) for v in z])
        if k in (1, 2, 5):
            y_ = out(make_sum(c, k).prox(x0.copy(), tau), x0.shape, "Sum.prox", cplx=False)
            same(y_, x, "iterate %d of Sum(%s, parallel=%s, original_tau=%s)" % (
                k, [s["op"] for s in c["ps"]], par, c["orig"]), (1 + big) * 10, 1e-7)
    return "%d%s" % (m, "par" if par else "seq")


@sub("sum_optimal", fcase(NONSEP), quick=150)
def _(c):
    """no perturbed feasible point is better than the converged answer"""
    x, tau = gen.arr(c["x"]), c["tau"]
    f, par, _ = factors(c)

    def obj(y, tol=0.0):
        v = 0.0
        for p, s in zip(c["ps"], f):
            o = ops.get(p)
            if o.ind:
                if o.viol(p, y) > tol:
                    return np.inf
            else:
                v += s * o.val(p, y)
        return v + nrm(y - x) ** 2 / (2 * tau)
    # a strictly interior direction is known only for the sets' projections of the answer: test those points
    y = out(make_sum(c, 300).prox(x.copy(), tau), x.shape, "Sum.prox", cplx=False)
    big = 1 + mx(x)

    def better(y):
        fy = obj(y, 1e-3 * big)
        if not np.isfinite(fy):
            return "infeasible"
        # |z-y|^2/(2 tau) below the objective of any z certifies distance; look for z with smaller value
        gap_tol = 1e-4 * (1 + abs(fy)) + 1e-3 * big * big / tau * 1e-2
        cands = [x, np.zeros_like(x), y * 0.9, y * 1.1] + [ops.get(p).prox(p, x, tau) for p in c["ps"]] + [
            ops.get(p).prox(p, y, 1e-2) for p in c["ps"]]
        for i in range(x.size):
            for h in (0.3, -0.3, 0.05, -0.05):
                e = np.zeros_like(x)
                e[i] = h * big
                cands.append(y + e)
        for z in cands:
            v = obj(z)
            if v < fy - gap_tol:
                return "%.9g against %.9g" % (fy, v)
        return None
    msg = better(y)
    if msg:
        msg = better(out(make_sum(c, 15000).prox(x.copy(), tau), x.shape, "Sum.prox", cplx=False))
        if msg:
            raise Violation("Sum(%s).prox(tau=%g) is not a minimiser: %s" % ([p["op"] for p in c["ps"]], tau, msg))
    return "%d%s" % (len(c["ps"]), "par" if par else "seq") if single_all(c, x, tau, y) else ""


# ---------------------------------------------------------------- intersections
@gen.mk
def icase(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    z = small(draw, n)
    ps, ball = [], False
    for _ in range(m):
        p = draw_fun(draw, n, ["HalfSpace", "Box"] + ([] if ball else ["EuclideanBall"]), z)
        ball |= p["op"] == "EuclideanBall"
        ps.append(p)
    return {"ps": ps, "x": small(draw, n), "par": draw(st.booleans()), "prox": draw(st.booleans()), "n": n}


def proj_ref(ps, x):
    n = x.size
    G, h, ball = [], [], None
    for p in ps:
        if p["op"] == "HalfSpace":
            G.append(np.array(p["w"]))
            h.append(p["b"])
        elif p["op"] == "Box":
            lo, hi = (np.broadcast_to(v, (n,)) for v in ops.REG["Box"].lohi(p))
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1
                if np.isfinite(hi[i]):
                    G.append(e)
                    h.append(hi[i])
                if np.isfinite(lo[i]):
                    G.append(-e)
                    h.append(-lo[i])
        else:
            ball = p
    G, h = np.array(G).reshape(-1, n), np.array(h)

    def P(v):
        return ops.ldp(G, h, v) if len(h) else v.copy()
    y = P(x)
    if ball is None:
        return y
    c, r = np.array(ball["center"]), ball["radius"]
    if np.linalg.norm(y - c) <= r:
        return y
    a, b = 0.0, 1.0
    while np.linalg.norm(P((x + b * c) / (1 + b)) - c) > r:
        b *= 2
        if b > 1e12:
            return None
    for _ in range(60):
        l = 0.5 * (a + b)
        if np.linalg.norm(P((x + l * c) / (1 + l)) - c) > r:
            a = l
        else:
            b = l
    return P((x + b * c) / (1 + b))


def call_inter(c, x, niter, tol=0.0, order=None):
    pr = [(lambda v, f=ops.build(p): f.prox(v, 1.0)) for p in (c["ps"] if order is None else [c["ps"][i] for i in order])]
    if c["prox"]:
        op = pp.GenericIntersectionProx(pr, niter=niter, tol=tol, use_parallel=c["par"])
        return out(op.prox(x.copy(), 0.7), x.shape, "GenericIntersectionProx.prox", cplx=False)
    return out(pj.GenericIntersectionProj(pr, niter=niter, tol=tol, use_parallel=c["par"])(x.copy()), x.shape,
               "GenericIntersectionProj", cplx=False)


@sub("intersection", icase, quick=300)
def _(c):
    x = gen.arr(c["x"])
    ref = proj_ref(c["ps"], x)
    if ref is None:
        return ""
    m = len(c["ps"])
    lim = 1e-5 * (1 + mx(x))
    for order in (None, list(range(m))[::-1]):
        y = call_inter(c, x, 400, order=order)
        if mx(y - ref) > lim:
            y = call_inter(c, x, 40000, order=order)
            # tangential intersections converge sublinearly
            if mx(y - ref) > 200 * lim:
                raise Violation("projection of %s onto the intersection of %s (order %s, parallel=%s): got %s nearest %s" % (
                    x, [p["op"] for p in c["ps"]], order, c["par"], y, ref))
    if m == 1:
        return "1" if nrm(ref - x) > 0 else ""
    return "%d%s" % (m, "par" if m > 2 or c["par"] else "seq") if single_all(c, x, 1.0, ref) else ""


@sub("intersection_recursion", icase, quick=300)
def _(c):
    x0 = gen.arr(c["x"])
    m = len(c["ps"])
    P = [lambda v, p=p: ops.get(p).prox(p, v, 1.0) for p in c["ps"]]
    x = x0.copy()
    z = [np.zeros_like(x) for _ in range(m)]
    for k in range(1, 6):
        if m == 1:
            x = P[0](x0)
        else:
            for i in range(m):      # for two sets the two documented schemes coincide
                u = P[i](x + z[i])
                z[i] = z[i] + x - u
                x = u
        if k in (1, 2, 5):
            same(call_inter(c, x0, k), x, "iterate %d of the projection onto %s" % (k, [p["op"] for p in c["ps"]]),
                 1 + mx(x0) + max(mx(v) for v in z), 1e-8)
    return "%d%s" % (m, "par" if m > 2 or c["par"] else "seq") if single_all(c, x0, 1.0, x) else ""


@gen.mk
def tolcase(draw):
    c = {"which": draw(st.sampled_from(["sum", "inter"])), "tol": draw(st.sampled_from([1e-2, 1e-4, 1e-6]))}
    n = draw(st.integers(1, 3))
    m = draw(st.integers(2, 4))
    z = small(draw, n)
    names = ["HalfSpace", "Box"] if c["which"] == "inter" else ["L1", "L2", "Box"]
    c.update(ps=[draw_fun(draw, n, names, z) for _ in range(m)], x=small(draw, n), par=draw(st.booleans()), orig=False,
             wl=True, prox=draw(st.booleans()), tau=1.0, n=n)
    return c


@sub("stopping", tolcase, quick=200)
def _(c):
    """with a tolerance the answer is one of the iterates, reached no later than the first iterate that stays put"""
    x = gen.arr(c["x"])

    def it(k, tol=0.0):
        return make_sum(c, k, tol).prox(x.copy(), 1.0) if c["which"] == "sum" else call_inter(c, x, k, tol)
    y = out(it(40, c["tol"]), x.shape, "answer")
    its = [it(k) for k in range(1, 41)]
    hit = [k for k, v in enumerate(its) if mx(v - y) <= 1e-12 * (1 + mx(x))]
    if not hit:
        raise Violation("%s with tol=%g returned %s, which is not an iterate" % (c["which"], c["tol"], y))
    k = hit[0] + 1
    if hit[-1] == 39:
        return "maxiter" if k > 1 else ""
    prev = x if k == 1 else its[k - 2]
    # stopping at iterate k requires some iterate equal to y whose last change is below the tolerance
    if not any(mx(its[j] - (x if j == 0 else its[j - 1])) < c["tol"] for j in hit):
        raise Violation("%s stopped at iterate %d although it changed by %g >= tol=%g" % (
            c["which"], k, mx(y - prev), c["tol"]))
    return "stopped"


@gen.mk
def stopcase(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.sampled_from([2, 2, 3, 3, 4]))
    z = small(draw, n)
    c = {"ps": [draw_fun(draw, n, ["HalfSpace", "HalfSpace", "Box", "EuclideanBall"], z) for _ in range(m)], "n": n,
         "par": draw(st.booleans()), "which": draw(st.sampled_from(["prox", "inter", "sum"])),
         "tol": draw(st.sampled_from([1e-3, 1e-6]))}
    c["x"] = [v * 10.0 ** draw(st.integers(0, 2)) for v in small(draw, n)]
    return c


@sub("stop_inside", stopcase, quick=400)
def _(c):
    """when the iterations end because of the tolerance, the answer is within the tolerance of every set: the
    iterate may rest for many sweeps far from the other sets, which is no reason to stop"""
    x = gen.arr(c["x"])
    calls = [0]

    def pr(p):
        f = ops.build(p)

        def g(v, *a):
            calls[0] += 1
            return f.prox(v, 1.0)
        return g
    P = [pr(p) for p in c["ps"]]
    m, niter = len(P), 2500
    which = c["which"]
    par = m > 2 or c["par"]
    if which == "sum" and par:
        which = "inter"     # the parallel scheme for functions does not deal with sets only
    if which == "sum":
        fs = [ops.build(p) for p in c["ps"]]
        for f, g in zip(fs, P):
            f.prox = g
        y = pp.Sum(fs, niter=niter, tol=c["tol"]).prox(x.copy(), 0.7)
    elif which == "prox":
        y = pp.GenericIntersectionProx(P, niter=niter, tol=c["tol"], use_parallel=c["par"]).prox(x.copy(), 0.7)
    else:
        y = pj.GenericIntersectionProj(P, niter=niter, tol=c["tol"], use_parallel=c["par"])(x.copy())
    y = out(y, x.shape, which, cplx=False)
    if calls[0] >= m * niter:
        return ""
    lim = 2 * c["tol"] * (1 + 1e-6) + 1e-11 * (1 + mx(x)) * m
    for p in c["ps"]:
        d = mx(ops.get(p).prox(p, y, 1.0) - y)
        # the nearest point is at most as far as the point of that set met in the last sweep
        if d > lim * np.sqrt(x.size):
            raise Violation("%s of %s onto %s (parallel=%s, tol=%g) stopped after %d projections at %s, %g outside of %s" % (
                which, x, [q["op"] for q in c["ps"]], c["par"], c["tol"], calls[0], y, d, p["op"]))
    return "%d%s" % (m, "par" if par else "seq") if calls[0] > 2 * m else ""


@gen.mk
def valcase(draw):
    n = draw(st.integers(1, 5))
    z = small(draw, n)
    names = draw(st.sampled_from([["HalfSpace", "EuclideanBall", "Box"], ["Euclidean", "HalfSpace", "EuclideanBall", "L1", "L2", "Box", "Huber"]]))
    ps = [draw_fun(draw, n, names, z) for _ in range(draw(st.integers(1, 6)))]
    return {"ps": ps, "z": z, "far": draw(st.lists(st.integers(0, 5), max_size=3)), "x": small(draw, n), "at": draw(st.integers(0, 2)),
            "par": draw(st.booleans()), "orig": draw(st.booleans()), "w": weights(draw, len(ps)) if draw(st.booleans()) else None, "nest": draw(st.integers(0, 5))}


@sub("value", valcase, quick=400)
def _(c):
    """a sum is infinite (False) off any of its sets, otherwise the sum of its functions, or True when it has sets only"""
    ps = c["ps"]
    x = gen.arr(c["z"] if c["at"] == 0 else c["x"])
    kw = {} if c["w"] is None or len(ps) < 2 else {"weights": list(c["w"])}
    fs = [ops.build(p) for p in ps]
    if c["nest"] == 0 and len(fs) > 2:
        fs = [pp.Sum(fs[:2], niter=3)] + fs[2:]
        kw = {}
    v = pp.Sum(fs, niter=3, use_parallel=c["par"], use_original_tau=c["orig"], **kw)(x.copy())
    dist = [ops.get(p).viol(p, x) for p in ps if ops.get(p).ind]
    big = 1 + mx(x) + sum(gen.size(p[k]) for p in ps for k in ("b", "radius", "center", "lo", "hi") if k in p)
    if any(0 < d <= 1e-4 * big for d in dist):
        return ""
    want_bool = any(d > 0 for d in dist) or len(dist) == len(ps)
    if want_bool:
        ok = not any(d > 0 for d in dist)
        if not isinstance(v, (bool, np.bool_)) or bool(v) != ok:
            raise Violation("Sum(%s) at %s is %r; distances from the sets are %s" % ([p["op"] for p in ps], x, v, dist))
        return ("in" if ok else "out%d-%d" % (sum(d > 0 for d in dist), len(dist)))
    ref = [ops.get(p).val(p, x) for p in ps if not ops.get(p).ind]
    if isinstance(v, (bool, np.bool_)) or abs(v - sum(ref)) > 1e-9 * (1e-300 + sum(map(abs, ref))):
        raise Violation("Sum(%s) at %s is %r, the functions sum to %r" % ([p["op"] for p in ps], x, v, sum(ref)))
    return "value-%d-%d" % (len(ref), len(dist))


@gen.mk
def empty(draw):
    return {"k": draw(st.sampled_from(["sum", "inter", "interprox"]))}


@sub("empty_list", empty, quick=3)
def _(c):
    try:
        {"sum": lambda: pp.Sum([]), "inter": lambda: pj.GenericIntersectionProj([]),
         "interprox": lambda: pp.GenericIntersectionProx([])}[c["k"]]()
    except (ValueError, ZeroDivisionError):
        return c["k"]
    raise Violation("%s of an empty list accepted" % c["k"])
