"""C17 simplex projection: engines, layouts, accuracy."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from pyproximal.projection import HyperPlaneBoxProj, SimplexProj
from vlib import gen, ops
from vlib.core import Violation, sub
from vlib.util import mx, out, same

RULE = ("cases: vectors and matrices (both axes, one to six rows of one to eight entries, entries over nine orders of magnitude, ties, "
        "entries on the threshold, vertices and feasible points), radius over six orders, both engines, tolerances 1e-3 to 1e-10; "
        "non-trivial: the projection moves the point and is not a vertex or has several rows")
ASSUMPTIONS = ["oracle: exact sort-based projection, evaluated row by row",
               "accuracy: the multiplier is found to max(xtol, ftol) so every entry is within that distance, plus rounding",
               "magnitudes up to 1e8 in double precision"]


def warmup():
    for k in ((3,), (2, 3)):
        for ax in ((1,) if len(k) == 1 else (0, 1)):
            op = pp.Simplex(int(np.prod(k)), 1.0, dims=None if len(k) == 1 else k, axis=ax, engine="numba")
            op.prox(np.ones(int(np.prod(k))), 1.0)


def draw_rows(draw, r, n, radius):
    rows = []
    for _ in range(r):
        k = draw(st.integers(0, 6))
        if k == 0:      # a feasible point
            w = [draw(st.integers(0, 5)) for _ in range(n)]
            w[0] += not any(w)
            v = [a / sum(w) * radius for a in w]
        elif k == 1:    # shifted feasible point: exact threshold known
            w = [draw(st.integers(0, 5)) for _ in range(n)]
            w[0] += not any(w)
            s = gen.num(draw)
            v = [a / sum(w) * radius + s for a in w]
        elif k == 2:    # constant row
            v = [gen.num(draw)] * n
        else:
            v = gen.rvec(draw, n, special=(radius, radius / n))
            if draw(st.integers(0, 4)) == 0:
                v = [a * 10.0 ** draw(st.integers(-6, 4)) for a in v]
        if rows and draw(st.integers(0, 5)) == 0:      # close to the row before, relative to its size
            big = 10.0 ** draw(st.integers(0, 8)) * radius
            rows[-1] = [big + radius * draw(st.integers(-8, 8)) / 8 for _ in range(n)]
            v = [a + radius * draw(st.integers(-8, 8)) / 8 for a in rows[-1]]
        rows.append(v)
    return rows


def draw_op(draw):
    return {"radius": gen.pos(draw) * (10.0 ** draw(st.integers(-2, 4)) if draw(st.integers(0, 3)) == 0 else 1.0),
            "xtol": draw(st.sampled_from([1e-3, 1e-5, 1e-8, 1e-8, 1e-10])), "ftol": draw(st.sampled_from([1e-4, 1e-8, 1e-8, 1e-10])),
            "tau": draw(st.sampled_from([0.1, 1.0, 5.0])), "maxiter": draw(st.sampled_from([100, 100, 200]))}


def mag(x, r):
    """rounding of the sums that define the multiplier"""
    return 64 * np.finfo(float).eps * (np.max(np.abs(x), axis=-1) + r) * np.shape(x)[-1]


def build(c, engine, dims=None, axis=-1):
    n = c["n"] * (c["r"] if dims else 1)
    return pp.Simplex(n, c["radius"], dims=dims, axis=axis, maxiter=c["maxiter"], ftol=c["ftol"], xtol=c["xtol"], engine=engine)


def tol_of(c, engine):
    return 1.01 * (max(c["xtol"], c["ftol"]) if engine == "numba" else c["xtol"])


def check_rows(Y, X, c, engine, what):
    R = np.array([ops.proj_simplex(v, c["radius"]) for v in X])
    e = np.max(np.abs(Y - R), axis=-1)
    t = tol_of(c, engine) + mag(X, c["radius"])
    if np.any(e > t):
        i = int(np.argmax(e - t))
        raise Violation("%s [%s]: row %d of the input is %s, radius %g: got %s, exact projection %s (error %g, allowed %g)" % (
            what, engine, i, X[i], c["radius"], Y[i], R[i], e[i], t[i]))
    if np.any(Y < 0):
        raise Violation("%s [%s] returns negative entries %s" % (what, engine, Y))
    return R


@gen.mk
def vector(draw):
    c = draw_op(draw)
    c["n"] = gen.dim(draw, 8)
    c["x"] = draw_rows(draw, 1, c["n"], c["radius"])[0]
    return c


@sub("vector", vector, quick=700)
def _(c):
    x = np.array(c["x"])
    ys = {}
    for eng in ("numpy", "numba"):
        op = build(c, eng)
        y = ys[eng] = out(op.prox(x.copy(), c["tau"]), x.shape, "Simplex.prox " + eng, cplx=False)
        R = check_rows(y[None], x[None], c, eng, "Simplex(n=%d).prox" % c["n"])
        z = op.prox(y.copy(), 1.0)      # idempotent
        if mx(z - y) > 2 * tol_of(c, eng) + mag(x, c["radius"]):
            raise Violation("Simplex [%s] is not idempotent: %s then %s" % (eng, y, z))
        d = op.proxdual(x.copy(), c["tau"])
        y1 = op.prox(x / c["tau"], 1 / c["tau"])
        same(d, x - c["tau"] * y1, "Simplex.proxdual " + eng, mx(x), 1e-12)
    if mx(ys["numpy"] - ys["numba"]) > tol_of(c, "numpy") + tol_of(c, "numba") + 2 * mag(x, c["radius"]):
        raise Violation("engines disagree on %s: %s" % (x, ys))
    p = SimplexProj(c["n"], c["radius"], maxiter=c["maxiter"], xtol=c["xtol"])(x.copy())
    check_rows(p[None], x[None], c, "numpy", "SimplexProj")
    h = HyperPlaneBoxProj(np.ones(c["n"]), c["radius"], lower=0, upper=np.inf, maxiter=c["maxiter"], xtol=c["xtol"])(x.copy())
    check_rows(h[None], x[None], c, "numpy", "HyperPlaneBoxProj")
    return "n%d" % c["n"] if c["n"] > 1 and np.count_nonzero(R) > 1 and mx(R - x) > 0 else ""


@gen.mk
def matrix(draw):
    c = draw_op(draw)
    c["n"], c["r"] = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    c["X"] = draw_rows(draw, c["r"], c["n"], c["radius"])
    c["axis"] = draw(st.sampled_from([0, 1, -1, -2]))
    c["other"] = draw(st.sampled_from([0.0, 1e-3, 1.0, 1e6]))
    c["i"] = draw(st.integers(0, c["r"] - 1))
    return c


def lay(X, axis):
    """(flat array, dims) with the rows of X along the axis"""
    Z = X if axis in (1, -1) else X.T
    return np.ascontiguousarray(Z).ravel(), Z.shape


@sub("matrix", matrix, quick=800)
def _(c):
    X = np.array(c["X"])
    flat, dims = lay(X, c["axis"])
    ys = {}
    for eng in ("numpy", "numba"):
        op = build(c, eng, dims, c["axis"])
        y = out(op.prox(flat.copy(), c["tau"]), flat.shape, "Simplex.prox " + eng, cplx=False).reshape(dims)
        Y = ys[eng] = y if c["axis"] in (1, -1) else y.T
        R = check_rows(Y, X, c, eng, "Simplex(dims=%s, axis=%d).prox" % (dims, c["axis"]))
        # one row does not see the others
        X2 = np.sign(np.sin(np.arange(X.size) + 1.0)).reshape(X.shape) * c["other"]
        X2[c["i"]] = X[c["i"]]
        f2, _ = lay(X2, c["axis"])
        y2 = op.prox(f2, c["tau"]).reshape(dims)
        Y2 = y2 if c["axis"] in (1, -1) else y2.T
        same(Y2[c["i"]], Y[c["i"]], "row %d after the other rows were replaced [%s]" % (c["i"], eng), mx(X[c["i"]]), 1e-13)
        # permuted rows
        pr = list(range(c["r"]))[::-1]
        y3 = op.prox(lay(X[pr], c["axis"])[0], c["tau"]).reshape(dims)
        same((y3 if c["axis"] in (1, -1) else y3.T)[pr], Y, "rows in reverse order [%s]" % eng, 0.0, 1e-13)
        # a matrix is the collection of its vectors
        v = build(c, eng).prox(X[c["i"]].copy(), c["tau"])
        if mx(v - Y[c["i"]]) > 2 * tol_of(c, eng) + 2 * mag(X[c["i"]], c["radius"]):
            raise Violation("row %d alone gives %s, inside of the matrix %s" % (c["i"], v, Y[c["i"]]))
    e = np.max(np.abs(ys["numpy"] - ys["numba"]), axis=-1)
    if np.any(e > tol_of(c, "numpy") + tol_of(c, "numba") + 2 * mag(X, c["radius"])):
        raise Violation("engines disagree on %s: %s" % (X, ys))
    return "axis%d-r%d" % (c["axis"], c["r"]) if np.count_nonzero(R) > 1 and mx(R - X) > 0 else ""


@gen.mk
def member(draw):
    c = draw_op(draw)
    c["n"], c["r"] = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    c["X"] = draw_rows(draw, c["r"], c["n"], c["radius"])
    c["axis"] = draw(st.sampled_from([0, 1, -1, -2]))
    c["xtol"] = c["ftol"] = 1e-12
    return c


@sub("own_projection_is_member", member, quick=300)
def _(c):
    X = np.array(c["X"])
    if mx(X) > 1e3 or c["radius"] > 1e3:
        return ""
    flat, dims = lay(X, c["axis"])
    for eng in ("numpy", "numba"):
        op = pp.Simplex(flat.size, c["radius"], dims=dims, axis=c["axis"], xtol=1e-12, ftol=1e-12, engine=eng, call=True)
        y = op.prox(flat.copy(), 1.0)
        if not op(y):
            raise Violation("Simplex(dims=%s, axis=%d)[%s]: its own projection %s is not a member" % (dims, c["axis"], eng, y))
        bad = y.copy()
        bad[0] += c["radius"] + 1e-3
        if op(bad):
            raise Violation("Simplex(dims=%s, axis=%d)[%s]: %s is called a member" % (dims, c["axis"], eng, bad))
    return "axis%d" % c["axis"] if gen.nontriv(X) else ""


CHILD = r"""
import sys, json
import numpy as np
sys.path.insert(0, sys.argv[2])
import pyproximal as pp
from pyproximal.proximal import _Simplex_numba as m
rng = np.random.Generator(np.random.PCG64(int(sys.argv[1])))
def exact(v, r):
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - r
    rho = np.nonzero(u - c / np.arange(1, v.size + 1) > 0)[0][-1]
    return np.maximum(v - c[rho] / (rho + 1), 0)
bad = []
for k in range(40):
    r, n = int(rng.integers(1, 60)), int(rng.integers(1, 40))
    X = rng.standard_normal((r, n)) * 10.0 ** rng.integers(-2, 3)
    rad = float(rng.uniform(0.1, 5))
    for axis in (0, 1):
        Z = X if axis == 1 else X.T
        op = pp.Simplex(Z.size, rad, dims=Z.shape, axis=axis, engine="numba")
        Y = op.prox(np.ascontiguousarray(Z).ravel(), 1.0).reshape(Z.shape)
        Y = Y if axis == 1 else Y.T
        e = max(float(np.max(np.abs(Y[i] - exact(X[i], rad)))) for i in range(r))
        if e > 1e-7:
            bad.append([k, axis, e])
print(json.dumps(dict(bad=bad, parallel=bool(m.parallel))))
"""


@gen.mk
def par(draw):
    return {"seed": draw(gen.seeds()), "threads": draw(st.sampled_from([2, 3, 4]))}


@sub("parallel_engine", par, quick=1, thorough=12, shards=2, budget=(120, 400))
def _(c):
    """the compiled engine with several threads (chosen when the library is imported)"""
    from vlib.core import REPO, HarnessError
    env = dict(os.environ, NUMBA_NUM_THREADS=str(c["threads"]), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, str(c["seed"]), REPO], env=env, capture_output=True, text=True, timeout=300)
    if r.returncode:
        if "pyproximal" in r.stderr:
            raise Violation("several threads: " + r.stderr[-1500:])
        raise HarnessError(r.stderr[-1500:])
    d = json.loads(r.stdout.strip().splitlines()[-1])
    if d["bad"]:
        raise Violation("with %d threads some rows are not the projection: %s" % (c["threads"], d["bad"][:5]))
    return "threads%d" % c["threads"] if d["parallel"] else ""
