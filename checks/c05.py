"""C05 indicators answer membership."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen, ops, prob
from vlib.core import Violation, sub
from vlib.util import boolean

RULE = ("cases: a set, a point obtained from a drawn vector by exact projection, pulled into the interior or pushed out "
        "by a drawn margin in a drawn direction; non-trivial: the point violates exactly one drawn constraint by the "
        "margin, or is a non-zero clear member")
ASSUMPTIONS = ["membership is asserted for points inside and rejection for points outside by more than 3 times the documented tolerance of the set (sub near_edge; at least 1e-9 relative), and for points of arbitrary sets by more than 1e-3 "
               "relative (the documented tolerances are 1e-8 to 1e-4)"]


def decide(op, x, want, what, tag=None, **kw):
    got = boolean(op(x.copy(), **kw), what)
    if got != want:
        raise Violation("%s: answered %s for a point that is %s the set: %s" % (
            what, got, "in" if want else "outside of", x), tag)


def make(name, quick):
    @gen.mk
    def strat(draw):
        o = ops.REG[name]
        p = o.spec(draw, gen.dim(draw, 6), draw(st.booleans()))
        if name in ("L0Ball", "L10Ball"):
            p["radius"] = draw(st.integers(0, p["n"]))
        return {"p": p, "x": o.x(draw, p), "y": o.x(draw, p), "t": draw(st.sampled_from([0.1, 0.5, 0.9, 1.1, 1.5, 3.0])),
                "i": draw(st.integers(0, 5)), "calls": draw(st.integers(0, 1))}

    def fn(c):
        p = c["p"]
        o = ops.get(p)
        x = o.arr(p, c["x"])
        op = o.build(p)
        if c["calls"]:
            op.prox(x.copy(), 1.0)
        what = name
        # raw drawn point
        v = o.viol(p, x)
        size = 1 + float(np.max(np.abs(x)))
        lab = ""
        if name in ("L0Ball", "L10Ball"):
            nzc = np.count_nonzero(x) if name == "L0Ball" else np.count_nonzero(
                np.any(x.reshape(p["nd"], -1) != 0, axis=0))
            decide(op, x, bool(nzc <= p["radius"]), what)
            lab = "in" if nzc <= p["radius"] else "out"
            y = op.prox(x.copy(), 1.0)
            decide(op, y, True, what + " (projected)")
            return lab if gen.nontriv(x) else ""
        if v == 0 and (name not in ("EuclideanBall", "HalfSpace", "L1Ball", "NuclearBall")):
            decide(op, x, True, what)
            lab = "in"
        elif v > (0 if name == "Box" else 1e-3 * size):     # bounds are compared exactly
            decide(op, x, False, what)
            lab = "out"
        # a member: projection pulled towards another member
        pr = o.prox(p, x, 1.0)
        z = o.prox(p, o.arr(p, c["y"]), 1.0)
        if name in ("SimplexSet", "AffineSet", "Hankel"):
            m = pr
            if name != "SimplexSet" or abs(np.sum(m) - p["radius"]) < 2e-9:
                decide(op, m, True, what + " (member)")
        elif name == "Box":
            decide(op, pr, True, what + " (member)")
            decide(op, pr + 0.5 * (z - pr), True, what + " (member)") if o.viol(p, pr + 0.5 * (z - pr)) == 0 else None
        else:
            ctr = {"EuclideanBall": lambda: np.broadcast_to(o.c(p), x.shape),
                   "L1Ball": lambda: np.zeros_like(x), "NuclearBall": lambda: np.zeros_like(x),
                   "HalfSpace": lambda: z - np.array(p["w"]) if name == "HalfSpace" else z}[name]()
            m = ctr + 0.9 * (pr - ctr)
            decide(op, m, True, what + " (interior)")
        # beyond the boundary along the outward direction
        d = x - pr
        n = float(np.linalg.norm(d))
        if n > 1e-2 * size:
            q = pr + c["t"] * d
            if o.viol(p, q) > 1e-3 * size:
                decide(op, q, False, what + " (pushed out)")
                lab = "pushed"
        # the library's own projection is a member, up to its accuracy
        if name in ("Box", "L1Ball", "NuclearBall", "Hankel") and (
                name == "Box" or name == "Hankel" or p["xtol"] * p["n"] <= 1e-6):
            if size < 1e3:
                decide(op, op.prox(x.copy(), 1.0), True, what + " (own projection)")
        return lab if gen.nontriv(x) else ""
    sub(name, strat, quick=quick)(fn)


for _n in ops.CONVEX_IND + ["L0Ball", "L10Ball"]:
    make(_n, 500)


@gen.mk
def counted(draw):
    nd, n, cplx = draw(st.integers(1, 4)), draw(st.integers(1, 6)), draw(st.booleans())
    kinds = ["zero", "zero", "one", "cancel", "cancel", "tiny", "huge", "full"] + (["isotropic", "phase"] if cplx else [])
    return {"nd": nd, "n": n, "cplx": cplx, "kinds": [draw(st.sampled_from(kinds)) for _ in range(n)], "a": [gen.pos(draw) for _ in range(n)],
            "row": [draw(st.integers(0, 3)) for _ in range(n)], "slack": draw(st.sampled_from([-1, -1, 0, 0, 1])), "call": draw(st.integers(0, 1))}


@sub("counting_sets", counted, quick=600)
def counting_sets(c):
    """L0 and L1,0 balls count non-zero entries and columns: also entries that cancel in a column, whose squares cancel, or that are tiny"""
    nd, n = c["nd"], c["n"]
    X = np.zeros((nd, n), dtype=complex if c["cplx"] else float)
    for j, (k, a, i) in enumerate(zip(c["kinds"], c["a"], c["row"])):
        i, i2 = i % nd, (i + 1) % nd
        if k == "full":
            X[:, j] = a
        elif k != "zero":
            X[i, j] = {"tiny": 1e-9, "huge": 1e9, "phase": 1j}.get(k, 1.0) * a
        if k in ("cancel", "isotropic") and i2 != i:
            X[i2, j] = -a if k == "cancel" else 1j * a
    cols = int(np.sum(np.any(X != 0, axis=0)))
    ents = int(np.sum(X != 0))
    for what, cnt, mk in (("L10Ball", cols, lambda r: pp.L10Ball(nd, (lambda k: r) if c["call"] else r)), ("L0Ball", ents, lambda r: pp.L0Ball((lambda k: r) if c["call"] else r))):
        r = cnt + c["slack"]
        if r >= 0:
            decide(mk(r), X.ravel(), bool(cnt <= r), what + " of radius %d" % r, what)
    return ("%d" % c["slack"]) if cols > 0 else ""


def simplex_points(draw, rows, n):
    return [[draw(st.integers(0, 8)) * 1.0 for _ in range(n)] for _ in range(rows)]


@gen.mk
def rows(draw):
    r, n = draw(st.integers(1, 3)), draw(st.integers(1, 5))
    lam = simplex_points(draw, r, n)
    for v in lam:
        if not any(v):
            v[0] = 1.0
    c = {"rows": r, "n": n, "axis": draw(st.sampled_from([0, 1, -1])), "radius": gen.pos(draw),
         "engine": draw(st.sampled_from(["numpy", "numba"])), "lam": lam, "bad": None}
    if draw(st.integers(0, 3)) > 0:
        kinds = ["high", "low", "neg"] if n > 1 else ["high", "low"]
        c["bad"] = [draw(st.integers(0, r - 1)), draw(st.sampled_from(kinds)),
                    draw(st.sampled_from([1e-3, 0.1, 0.5, 2.0]))]
    return c


@sub("simplex_rows", rows, quick=500)
def _(c):
    r, n = c["rows"], c["n"]
    X = np.array([np.array(v) / np.sum(v) * c["radius"] for v in c["lam"]])
    tag = None
    if c["bad"]:
        i, k, e = c["bad"]
        e = e * c["radius"]
        if k == "high":
            X[i, 0] += e
        elif k == "low":
            X[i] *= 1 - e / c["radius"] if e < c["radius"] else 0.0
            tag = "simplex-dims-low-sum"
        else:
            X[i, 0] = -e
            X[i, 1] += c["radius"] - np.sum(X[i])
            X[i, 1] = X[i, 1]
    ax = c["axis"]
    Y = X.T.copy() if ax == 0 else X
    op = pp.Simplex(Y.size, c["radius"], dims=Y.shape, axis=ax, engine=c["engine"])
    if np.max(np.abs(np.sum(X, axis=1) - c["radius"])) > 1e-9 and not c["bad"]:
        return ""
    decide(op, Y.ravel(), c["bad"] is None, "Simplex(dims=%s, axis=%d)" % (Y.shape, ax), tag)
    return "member" if not c["bad"] else c["bad"][1]


@gen.mk
def simplex1(draw):
    n = gen.dim(draw, 6)
    lam = simplex_points(draw, 1, n)[0]
    if not any(lam):
        lam[0] = 1.0
    return {"n": n, "radius": gen.pos(draw), "lam": lam, "engine": draw(st.sampled_from(["numpy", "numba"])),
            "call": draw(st.integers(0, 5)) > 0, "bad": draw(st.sampled_from([None, "high", "low", "neg"])),
            "e": draw(st.sampled_from([1e-3, 0.1, 2.0]))}


@sub("simplex_vector", simplex1, quick=400)
def _(c):
    x = np.array(c["lam"]) / np.sum(c["lam"]) * c["radius"]
    e = c["e"] * c["radius"]
    if c["bad"] == "high":
        x[-1] += e
    elif c["bad"] == "low":
        x[int(np.argmax(x))] -= min(e, 0.5 * np.max(x))
    elif c["bad"] == "neg":
        if c["n"] < 2:
            return ""
        x[0] = -e
        x[1] += c["radius"] - np.sum(x)
    elif abs(np.sum(x) - c["radius"]) > 1e-9:
        return ""
    op = pp.Simplex(c["n"], c["radius"], engine=c["engine"], call=c["call"])
    # call=False: the evaluation is disabled
    decide(op, x, c["bad"] is None and c["call"], "Simplex(call=%s)" % c["call"])
    return c["bad"] or "member"


@gen.mk
def inter(draw):
    k, n = draw(st.integers(2, 4)), draw(st.integers(1, 3))
    c = {"k": k, "n": n, "x": gen.rvec(draw, k * n, style=(20, 4), scale=False), "call": draw(st.integers(0, 6)) > 0}
    if draw(st.booleans()):
        c["sigma"] = draw(st.sampled_from([0.5, 1.0, 2.0, 5.0]))
    else:
        c["S"] = [draw(st.integers(1, 24)) / 4 for _ in range(k * k)]
    if draw(st.booleans()):   # close to the set: scale the differences so that at most one bound is exceeded
        c["fit"] = draw(st.sampled_from([0.9, 1.0, 1.05]))
    return c


@sub("Intersection", inter, quick=500)
def _(c):
    k, n = c["k"], c["n"]
    S = np.array(c["S"]).reshape(k, k) if "S" in c else np.full((k, k), c["sigma"])
    X = np.array(c["x"]).reshape(k, n)
    iu = [(i, j) for i in range(k) for j in range(i + 1, k)]
    if "fit" in c:
        r = max(float(np.max(np.abs(X[i] - X[j]))) / S[i, j] for i, j in iu)
        if r > 0:
            X = X / r * c["fit"]
    ex = max(float(np.max(np.abs(X[i] - X[j]))) - S[i, j] for i, j in iu)
    if abs(ex) < 1e-6:
        return ""
    op = pp.Intersection(k, n, S.copy() if "S" in c else c["sigma"], call=c["call"])
    decide(op, X.ravel(), ex < 0 and c["call"], "Intersection(call=%s)" % c["call"])
    return "in" if ex < 0 else "out"


@gen.mk
def generic(draw):
    n = draw(st.integers(1, 4))
    fs = [ops.REG[draw(st.sampled_from(["Box", "EuclideanBall", "HalfSpace"]))].spec(draw, n)
          for _ in range(draw(st.integers(1, 5)))]
    return {"fs": fs, "x": gen.rvec(draw, n, scale=False), "tol": draw(st.sampled_from([1e-6, 1e-4, 1e-8, 1e-9]))}


@sub("GenericIntersection", generic, quick=400)
def _(c):
    x = gen.arr(c["x"])
    v = [ops.get(p).viol(p, x) for p in c["fs"]]
    dist = [float(np.max(np.abs(x - ops.get(p).prox(p, x, 1.0)))) for p in c["fs"]]
    pr = [(lambda z, f=ops.build(p): f.prox(z, 1.0)) for p in c["fs"]]
    op = pp.GenericIntersectionProx(pr, tol=c["tol"])
    if max(v) == 0:
        decide(op, x, True, "GenericIntersectionProx")
        return "in"
    if max(dist) > 30 * c["tol"]:
        decide(op, x, False, "GenericIntersectionProx")
        return "out-%d" % sum(d > 0 for d in dist)
    return ""


@gen.mk
def box_edge(draw):
    n = gen.dim(draw, 6)
    i = draw(st.integers(0, n - 1))
    return {"n": n, "i": i, "lo": draw(st.sampled_from([0.0, -1.0, 1e-3, -1e3, 500.0])), "w": draw(st.sampled_from([1.0, 1e3, 1e-3, 1e5, 1e-6])),
            "t": [draw(st.integers(0, 8)) / 8 for _ in range(min(n, 10))], "arr": draw(st.booleans()), "one": draw(st.sampled_from([None, "lo", "hi"])),
            "up": draw(st.booleans()), "d": draw(st.sampled_from([1e-13, 1e-10, 1e-7, 1e-5, 1e-3, 0.3])), "out": draw(st.integers(0, 3)) > 0}


@sub("box_edge", box_edge, quick=300)
def _(c):
    """a single entry which leaves the box by little"""
    n, i = c["n"], c["i"]
    lo, hi = c["lo"], c["lo"] + c["w"]
    x = lo + (hi - lo) * np.resize(np.array(c["t"]), n)
    x = np.minimum(np.maximum(x, lo), hi)
    kw = {}
    if c["one"] != "hi":
        kw["lower"] = np.full(n, lo) if c["arr"] else lo
    if c["one"] != "lo":
        kw["upper"] = np.full(n, hi) if c["arr"] else hi
    op = pp.Box(**kw)
    decide(op, x, True, "Box(%s)" % kw)
    if not c["out"]:
        return "in"
    d = c["d"] * max(abs(lo), abs(hi))
    x[i] = hi + d if c["up"] else lo - d
    outside = ("upper" in kw) if c["up"] else ("lower" in kw)
    decide(op, x, not outside, "Box(%s) with entry %d at %r" % (kw, i, x[i]))
    return "out" if outside else "unbounded"


@gen.mk
def long_generic(draw):
    n = draw(st.integers(2, 60))
    return {"n": n, "i": draw(st.integers(0, n - 1)), "d": draw(st.sampled_from([40.0, 100.0, 1e3, 1e4])), "k": draw(st.integers(1, 5)), "j": draw(st.integers(0, 4)),
            "tol": draw(st.sampled_from([1e-6, 1e-4, 1e-3, 1e-8, 1e-10])), "seed": draw(gen.seeds()), "up": draw(st.booleans()), "par": draw(st.booleans())}


@sub("generic_one_entry", long_generic, quick=250)
def _(c):
    """long vectors which violate one of the sets in one entry only"""
    g = gen.rng(c["seed"])
    n, k = c["n"], c["k"]
    x = g.uniform(-1, 1, n)
    B = [(x - g.uniform(0.1, 2, n), x + g.uniform(0.1, 2, n)) for _ in range(k)]
    op = pp.GenericIntersectionProx([(lambda z, b=b: np.clip(z, b[0], b[1])) for b in B], tol=c["tol"], use_parallel=c["par"])
    decide(op, x, True, "GenericIntersectionProx of %d boxes" % k)
    lo, hi = B[c["j"] % k]
    x[c["i"]] = hi[c["i"]] + c["d"] * c["tol"] if c["up"] else lo[c["i"]] - c["d"] * c["tol"]
    decide(op, x, False, "GenericIntersectionProx of %d boxes, one entry of %d outside by %g" % (k, n, c["d"] * c["tol"]))
    return "n>10" if n > 10 else "n<=10"


EDGE = {"EuclideanBall": 0.0, "HalfSpace": 0.0, "L1Ball": 1e-4, "NuclearBall": 1e-5, "Simplex": 1e-8, "SimplexNeg": 0.0,
        "SimplexRows": 1e-8, "Intersection": 1e-8, "AffineSet": 1e-8, "Hankel": 1e-8}


@gen.mk
def near_edge(draw):
    n = draw(st.integers(2, 9))
    return {"set": draw(st.sampled_from(sorted(EDGE))), "n": n, "i": draw(st.integers(0, n - 1)), "size": draw(st.sampled_from([1e-3, 0.1, 1.0, 1.0, 20.0, 1e3])),
            "k": draw(st.sampled_from([3.0, 10.0, 100.0])), "cplx": draw(st.booleans()), "seed": draw(gen.seeds()), "calls": draw(st.integers(0, 1)),
            "engine": draw(st.sampled_from(["numpy", "numba"])), "arr": draw(st.booleans())}


@sub("near_edge", near_edge, quick=600)
def _(c):
    """points of the boundary, pulled in by a relative 1e-9 and pushed out by a few times the tolerance of the set"""
    g = gen.rng(c["seed"])
    n, i, s, kind = c["n"], c["i"], c["size"], c["set"]
    cplx = c["cplx"] and kind in ("EuclideanBall", "L1Ball", "NuclearBall", "AffineSet")

    def rand(*sh):
        return g.standard_normal(sh) + (1j * g.standard_normal(sh) if cplx else 0)
    if kind == "EuclideanBall":
        d = rand(n)
        d /= np.linalg.norm(d)
        ctr = s * rand(n) if c["arr"] else s
        op = pp.EuclideanBall(ctr, s)
        inside, out = ctr + s * (1 - 1e-9) * d, ctr + s * (1 + 1e-9 * c["k"]) * d
    elif kind == "HalfSpace":
        w, x = rand(n), s * rand(n)
        b = float(np.dot(w, x))
        m = 1e-9 * float(np.sum(np.abs(w * x)))
        op = pp.HalfSpace(w.copy(), b)
        inside, out = x - m * w / np.dot(w, w), x + m * c["k"] * w / np.dot(w, w)
    elif kind in ("L1Ball", "NuclearBall"):
        sh = (n,) if kind == "L1Ball" else (n, 2 + i % 3)
        x = rand(*sh)
        nr = np.sum(np.abs(x)) if kind == "L1Ball" else np.linalg.norm(x, ord="nuc")
        x = x * (s / nr)
        op = pp.L1Ball(n, s) if kind == "L1Ball" else pp.NuclearBall(sh, s)
        inside, out = (1 - 1e-9) * x, x * (1 + c["k"] * EDGE[kind] / s)
        inside, out = inside.ravel(), out.ravel()
    elif kind in ("Simplex", "SimplexNeg"):
        x = np.abs(g.standard_normal(n)) + 0.1
        x *= s / x.sum()
        if abs(x.sum() - s) > 3e-9:
            return ""
        op = pp.Simplex(n, s, engine=c["engine"])
        inside, out = x, x.copy()
        if kind == "Simplex":
            out[i] += max(c["k"] * 1e-8, 1e-14 * s) * (1 if c["arr"] else -1)
        else:
            j = (i + 1) % n
            e = 1e-12 * s * c["k"]
            out[i], out[j] = -e, out[j] + out[i] + e
    elif kind == "SimplexRows":
        r = 1 + i % 3
        X = np.abs(g.standard_normal((r, n))) + 0.1
        X *= s / X.sum(axis=1, keepdims=True)
        if np.max(np.abs(X.sum(axis=1) - s)) > 3e-9:
            return ""
        Z = X.copy()
        if c["arr"]:
            Z[i % r, i] += c["k"] * 1e-8
        else:
            j = (i + 1) % n
            e = 1e-12 * s * c["k"]
            Z[i % r, i], Z[i % r, j] = -e, Z[i % r, j] + Z[i % r, i] + e
        ax = i % 2
        op = pp.Simplex(X.size, s, dims=(X.T if ax == 0 else X).shape, axis=ax, engine=c["engine"])
        inside, out = [(Y.T if ax == 0 else Y).copy().ravel() for Y in (X, Z)]
    elif kind == "Intersection":
        k = 2 + i % 3
        S = (0.5 + g.uniform(0, 1, (k, k))) * s
        S = (S + S.T) / 2
        i1, i2 = sorted(g.permutation(k)[:2])
        X = np.zeros((k, n)) + s * g.standard_normal(n)
        for a in range(k):
            X[a] += 0.2 * s * g.uniform(-1, 1, n)
        X[:, i] = X[i2, i] + 0.5 * S[i1, i2]
        X[i2, i] -= 0.5 * S[i1, i2]
        X[i1, i] = X[i2, i] + S[i1, i2] * (1 - 1e-9)
        if any(np.any(np.abs(X[a] - X[b]) > S[a, b] * (1 - 1e-10)) for a in range(k) for b in range(a + 1, k)):
            return ""
        Y = X.copy()
        Y[i1, i] = X[i2, i] + S[i1, i2] + c["k"] * 1e-8
        op = pp.Intersection(k, n, S.copy())
        inside, out = X.ravel(), Y.ravel()
    elif kind == "AffineSet":
        m = 1 + i % 2
        A, x = rand(m, n), s * rand(n)
        A = A * 10.0 ** (4 * (i % 3) * np.arange(m))[:, None] if not cplx else A      # equations of different size
        b = A @ x
        y = x + c["k"] * np.linalg.pinv(A)[:, 0] * (1e-8 + 1e-5 * abs(b[0]))
        op = pp.AffineSet(prob.linop({"form": "explicit"}, A), b.copy(), 5)
        inside, out = x, y
    else:
        m = 2 + i % 4
        h = s * g.standard_normal(n + m - 1)
        X = np.array([[h[a + b] for b in range(n)] for a in range(m)])
        Y = X.copy()
        a = g.integers(1, m)
        b = g.integers(0, n - 1)          # an entry whose antidiagonal has at least two entries
        Y[a, b] += 4 * c["k"] * (1e-8 + 1e-5 * abs(Y[a, b]))
        op = pp.Hankel(X.shape)
        inside, out = X.ravel(), Y.ravel()
    if c["calls"]:
        op.prox(out.copy(), 1.0)
    decide(op, inside, True, kind + " (on the edge)")
    decide(op, out, False, kind + " (just beyond the edge)")
    return kind
