"""C28 image segmentation."""
import numpy as np
from hypothesis import strategies as st

from pyproximal.optimization.segmentation import Segment
from vlib import gen, ops, recur
from vlib.core import Violation, sub
from vlib.util import mx, out, same

RULE = ("cases: images of two to four dimensions (floating point of both precisions, signed and unsigned integers), one to five classes in any order, sigma and "
        "alpha over several magnitudes, class deviations, additional linear terms, initial guesses, iteration counts, simplex engines; "
        "non-trivial: at least two classes are selected somewhere in the image")
ASSUMPTIONS = ["oracle for convergence: duality gap certified with an independent primal-dual recursion using dense difference matrices and exact simplex projections",
               "labels are compared where the competing probabilities or distances differ by more than the accuracy of the projection",
               "the simplex projection is accurate to its tolerance (C17)"]
DIMS = [(2, 2), (2, 3), (3, 2), (4, 3), (5, 2), (3, 5), (2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 2, 2, 2)]


def warmup():
    Segment(np.ones((2, 2)), np.array([0.0, 1.0]), 1.0, 1.0, niter=1, kwargs_simplex={"engine": "numba"})


def draw_case(draw, alphas, niters, dims=DIMS):
    d = draw(st.sampled_from(dims))
    n = int(np.prod(d))
    k = draw(st.integers(1, 5) if draw(st.integers(0, 9)) == 0 else st.integers(2, 5))
    kind = draw(st.sampled_from(["float", "float", "float", "float32", "uint8", "int"]))
    s = (255, 1) if kind == "uint8" else (20, 1) if kind == "int" else draw(st.sampled_from([(3, 1), (8, 2), (20, 4), (40, 10)]))
    lo = 0 if kind == "uint8" else -s[0]
    y = [v / s[1] for v in draw(st.lists(st.integers(lo, s[0]), min_size=n, max_size=n))]
    cl = [v / s[1] for v in draw(st.lists(st.integers(lo, s[0]), min_size=k, max_size=k, unique=True))]
    if draw(st.booleans()):        # two-valued image with some noise: regions
        a = cl[0] if len(cl) else 0
        y = [a if draw(st.integers(0, 3)) else v for v in y]
    span = max(abs(v - c) for v in y for c in cl) or 1.0
    c = {"dims": list(d), "kind": kind, "y": y, "cl": cl, "sigma": draw(st.sampled_from([0.5, 1.0, 2.0, 5.0])) * (1.0 if kind != "uint8" else 1e-3),
         "alpha": draw(st.sampled_from(alphas)), "cs": [draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])) for _ in cl] if draw(st.integers(0, 2)) == 0 else None,
         "clint": kind in ("uint8", "int") and draw(st.booleans()),
         "z": None, "x0": None, "niter": draw(niters), "engine": draw(st.sampled_from([None, "numpy", "numba"])), "show": draw(st.integers(0, 9)) == 0}
    if draw(st.integers(0, 3)) == 0:
        c["z"] = gen.rvec(draw, n * k, style=(8, 2), scale=False)
    if draw(st.integers(0, 3)) == 0:
        c["x0"] = [abs(v) for v in gen.rvec(draw, n * k, style=(4, 4), scale=False)]
    if c["cs"] is not None:        # deviations in other units (and the weight along with them)
        u = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-5, 1e3]))
        c["sigma"], c["cs"] = c["sigma"] * u, [v * u for v in c["cs"]]
    c["span"] = span
    return c


def arrays(c):
    y = np.array(c["y"]).reshape(c["dims"])
    y = y.astype({"float": "f8", "float32": "f4", "uint8": "u1", "int": "i8"}[c["kind"]])
    cl = np.array(c["cl"])
    if c["clint"]:
        cl = cl.astype(y.dtype)
    cs = None if c["cs"] is None else np.array(c["cs"])
    z = None if c["z"] is None else np.array(c["z"])
    x0 = None if c["x0"] is None else np.array(c["x0"])
    return y, cl, cs, z, x0


def run(c, niter=None, alpha=None, arrs=None, cb=None):
    y, cl, cs, z, x0 = arrays(c) if arrs is None else arrs
    kw = {}
    if c["engine"]:
        kw["kwargs_simplex"] = {"engine": c["engine"]}
    keep = [None if a is None else a.copy() for a in (y, cl, cs, z, x0)]
    x, lab = Segment(y, cl, c["sigma"], c["alpha"] if alpha is None else alpha, clsigmas=cs, z=z, niter=niter or c["niter"], x0=x0, callback=cb, show=c["show"], **kw)
    for a, b, w in zip((y, cl, cs, z, x0), keep, ("image", "classes", "deviations", "linear term", "initial guess")):
        if a is not None and not np.array_equal(a, b):
            raise Violation("Segment modifies its %s" % w)
    n, k = y.size, cl.size
    if type(x) is not np.ndarray or x.shape != (n, k):
        raise Violation("probabilities have shape %s, expected %s" % (getattr(x, "shape", None), (n, k)))
    out(x, (n, k), "Segment", cplx=False)
    if np.shape(lab) != y.shape or not np.issubdtype(lab.dtype, np.integer):
        raise Violation("labels have shape %s and type %s for an image of shape %s" % (np.shape(lab), lab.dtype, y.shape))
    return x, lab


def cost(c):
    """documented unary term, computed independently: (k, n)"""
    y, cl = np.array(c["y"]), np.array(c["cl"])
    if c["kind"] == "float32":
        y = y.astype("f4").astype(float)
    f = np.array([(y - v) ** 2 for v in cl])
    if c["cs"] is not None:
        f = f / np.array(c["cs"])[:, None]
    f = c["sigma"] / 2 * f
    if c["z"] is not None:
        f = f + np.array(c["z"]).reshape(f.shape)
    return f


def differences(dims):
    """list of dense forward differences, zero at the far edge"""
    n = int(np.prod(dims))
    idx = np.arange(n).reshape(dims)
    D = []
    for ax in range(len(dims)):
        M = np.zeros((n, n))
        a = np.take(idx, range(dims[ax] - 1), axis=ax).ravel()
        b = np.take(idx, range(1, dims[ax]), axis=ax).ravel()
        M[a, a], M[a, b] = -1, 1
        D.append(M)
    return D


def proj_rows(V):
    return np.array([ops.proj_simplex(v, 1.0) for v in V])


PT = 1e-6      # accuracy of the projection (tolerance 1e-8), with room for its accumulation


def check_valid(x, lab, what):
    if np.min(x) < 0 or mx(np.sum(x, axis=1) - 1) > PT:
        i = int(np.argmax(np.maximum(-np.min(x, axis=1), np.abs(np.sum(x, axis=1) - 1))))
        raise Violation("%s: pixel %d has probabilities %s" % (what, i, x[i]))
    l = lab.ravel()
    if np.min(l) < 0 or np.max(l) >= x.shape[1]:
        raise Violation("%s: labels outside the classes: %s" % (what, l))
    if np.any(x[np.arange(l.size), l] < np.max(x, axis=1)):
        i = int(np.argmin(x[np.arange(l.size), l] - np.max(x, axis=1)))
        raise Violation("%s: pixel %d labelled %d although its probabilities are %s" % (what, i, l[i], x[i]))


def desc(c):
    return "Segment(%s %s image, %d classes, sigma=%g, alpha=%g, niter=%d)" % ("x".join(map(str, c["dims"])), c["kind"], len(c["cl"]), c["sigma"], c["alpha"], c["niter"])


@gen.mk
def anyc(draw):
    return draw_case(draw, [1e-6, 0.1, 0.5, 1.0, 2.0, 10.0, 100.0], st.integers(1, 60))


@sub("valid", anyc, quick=450)
def _(c):
    seen = []
    x, lab = run(c, cb=lambda v: seen.append(np.array(v)))
    check_valid(x, lab, desc(c))
    if len(seen) != c["niter"]:
        raise Violation("%s calls its callback %d times" % (desc(c), len(seen)))
    if seen[-1].size != x.size or not np.array_equal(seen[-1].reshape(x.shape[1], x.shape[0]).T, x):
        raise Violation("%s: the last vector given to the callback is not the one returned" % desc(c))
    for v in seen:
        V = v.reshape(x.shape[1], x.shape[0])
        if np.min(V) < 0 or mx(V.sum(axis=0) - 1) > PT:
            raise Violation("%s: an iterate leaves the simplex" % desc(c))
    return "%dd-%s" % (len(c["dims"]), c["kind"]) if len(set(lab.ravel())) > 1 else ""


# ------------------------------------------------------------------ nearest class
@gen.mk
def near(draw):
    return draw_case(draw, [1e-9, 1e-7], st.integers(1, 40))


@sub("nearest", near, quick=500)
def _(c):
    x, lab = run(c)
    check_valid(x, lab, desc(c))
    f = cost(c)
    n, k = x.shape
    slack = 1e-4 * (1 + mx(f)) if c["kind"] == "float32" else 1e-6 * (1 + mx(f) * 1e-6)
    slack += 4 * len(c["dims"]) * c["alpha"]
    best = np.argmin(f, axis=0)
    X0 = np.zeros((k, n)) if c["x0"] is None else np.array(c["x0"]).reshape(k, n)
    for i in range(n):
        b = best[i]
        d = np.min(np.delete(f[:, i], b)) - f[b, i] - slack if k > 1 else 1.0
        start = np.max(np.delete(X0[:, i], b)) - X0[b, i] if k > 1 else 0.0
        if d > 0 and c["niter"] * d > start + 1e-3 and lab.ravel()[i] != b:
            raise Violation("%s: pixel %d of value %g is labelled %d (class %g) although class %g costs %g less" % (
                desc(c), i, c["y"][i], lab.ravel()[i], c["cl"][lab.ravel()[i]], c["cl"][b], d))
        # one-hot once the advantage has had time to act
        if d > 0 and c["niter"] * d > max(start, 0.0) + 2.01 and abs(x[i, b] - 1) > PT:
            raise Violation("%s: pixel %d has probabilities %s although class %d is the cheapest" % (desc(c), i, x[i], b))
    return "%dd-%s" % (len(c["dims"]), c["kind"]) if len(set(lab.ravel())) > 1 else ""


# ------------------------------------------------------------------ symmetries
@gen.mk
def perm(draw):
    c = draw_case(draw, [0.1, 0.5, 1.0, 2.0, 10.0], st.integers(1, 30))
    c["perm"] = draw(st.permutations(range(len(c["cl"]))))
    c["axes"] = draw(st.permutations(range(len(c["dims"]))))
    c["shift"] = draw(st.sampled_from([0.0, 1.0, -3.0, 16.0])) if c["kind"] == "float" else 0.0
    c["gain"] = draw(st.sampled_from([1.0, 2.0, 0.25, -1.0])) if c["kind"] == "float" else 1.0
    return c


@sub("symmetry", perm, quick=350)
def _(c):
    x, lab = run(c)
    y, cl, cs, z, x0 = arrays(c)
    p, ax, k, n = list(c["perm"]), list(c["axes"]), len(c["cl"]), y.size
    blk = lambda v: None if v is None else np.transpose(v.reshape((k,) + y.shape)[p], [0] + [a + 1 for a in ax]).ravel().copy()
    g = c["gain"]
    y2 = np.transpose(y, ax).copy()
    if c["kind"] == "float":
        y2, cl = g * y2 + c["shift"], g * cl + c["shift"]
    c2 = dict(c, sigma=c["sigma"] / g ** 2)
    x2, lab2 = run(c2, arrs=(y2, cl[p].copy(), None if cs is None else cs[p].copy(), blk(z), blk(x0)))
    ref = blk(x.T.copy()).reshape(k, n).T
    tol = PT * (1 + c["niter"]) + (1e-3 if c["kind"] == "float32" else 0.0)
    what = "%s with classes permuted by %s, axes by %s, values times %g plus %g" % (desc(c), p, ax, g, c["shift"])
    if mx(x2 - ref) > tol:
        i = int(np.argmax(np.max(np.abs(x2 - ref), axis=1)))
        raise Violation("%s: probabilities of pixel %d are %s, expected %s" % (what, i, x2[i], ref[i]))
    L = np.transpose(lab, ax).ravel()
    inv = np.argsort(p)
    for i in range(n):
        s = np.sort(ref[i])
        if k > 1 and s[-1] - s[-2] > 3 * tol and inv[L[i]] != lab2.ravel()[i]:
            raise Violation("%s: label of pixel %d is %d, expected %d" % (what, i, lab2.ravel()[i], inv[L[i]]))
    return "%dd-%s" % (len(c["dims"]), c["kind"]) if len(set(lab.ravel())) > 1 and (p != sorted(p) or ax != sorted(ax)) else ""


# ------------------------------------------------------------------ convergence to the documented objective
@gen.mk
def conv(draw):
    c = draw_case(draw, [0.1, 0.5, 1.0, 2.0, 5.0], st.just(600), dims=DIMS[:9] + [(6, 5), (6, 6), (3, 3, 3)])
    c["engine"], c["show"] = "numba", False
    if c["kind"] == "uint8":
        c["alpha"] *= 5
    return c


@sub("objective", conv, quick=60, thorough=1200)
def _(c):
    f = cost(c)
    k, n = f.shape
    D = differences(c["dims"])
    G = np.vstack(D)
    a = c["alpha"] / 2
    mag = lambda X: np.sqrt(sum((d @ X.T) ** 2 for d in D))          # (n, k)
    P = lambda X: float(np.sum(X * f) + a * np.sum(mag(X)))
    # reference: primal-dual with dense matrices
    s = 0.99 / np.linalg.norm(G, 2)
    X, Y = np.full((k, n), 1.0 / k), np.zeros((len(D), n, k))
    Xh, lo, hi = X, -np.inf, np.inf
    for it in range(4000):
        Y = Y + s * np.array([d @ Xh.T for d in D])
        Y = Y / np.maximum(1.0, np.sqrt(np.sum(Y ** 2, axis=0)) / a)
        Xo = X
        B = sum(d.T @ y for d, y in zip(D, Y)).T
        X = proj_cols(X - s * (f + B))
        Xh = 2 * X - Xo
        if it % 50 == 49:
            lo = max(lo, float(np.sum(np.min(f + B, axis=0))))
            hi = min(hi, P(X))
            if hi - lo < 1e-7 * (1 + abs(hi)):
                break
    if hi - lo > 1e-5 * (1 + abs(hi)):
        return ""
    scale = 1 + mx(f) + a
    x, lab = run(c)
    check_valid(x, lab, desc(c))
    gap = P(x.T) - lo
    # steps tau=1 against a problem of size n: ergodic rate bounds even the slow cases; decided at three lengths
    if gap > 1e-3 * (1 + abs(lo)) + (1e-3 * scale if c["kind"] == "float32" else 0.0):
        x, lab = run(c, niter=6000)
        g2 = P(x.T) - lo
        if g2 > 1e-3 * (1 + abs(lo)) + (1e-3 * scale if c["kind"] == "float32" else 0.0):
            raise Violation("%s: objective %r after 600 and %r after 6000 iterations, minimum %r" % (desc(c), gap + lo, g2 + lo, lo))
    mixed = np.argmin(f, axis=0)
    return "%dd-%s" % (len(c["dims"]), "reg" if np.any(mixed != lab.ravel()) else "data") if len(set(lab.ravel())) > 1 or np.any(mixed != lab.ravel()) else ""


def proj_cols(V):
    """exact projection of each column on the unit simplex"""
    k = V.shape[0]
    u = -np.sort(-V, axis=0)
    cs = np.cumsum(u, axis=0) - 1
    j = np.arange(1, k + 1)[:, None]
    r = np.sum(u - cs / j > 0, axis=0)
    th = cs[r - 1, np.arange(V.shape[1])] / r
    return np.maximum(V - th, 0)
