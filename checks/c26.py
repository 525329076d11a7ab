"""C26 low-rank factorised bilinear operators."""
import numpy as np
from hypothesis import strategies as st

import pylops
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from vlib import gen, ops, recur
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, same

RULE = ("cases: factor shapes 1..5 x 1..4 x 1..5 (n equal to or different from m), data, optional operator (matrix or matrix-free, real/complex), histories of 1 to 12 calls "
        "(updates of one or both factors, values in both call forms, partial and joint gradients, products, constants); non-trivial: at least one update before an evaluation")
ASSUMPTIONS = ["model: dense matrix algebra on the factors the history last stored"]


def draw_op(draw, n, m, cplx):
    if draw(st.booleans()):
        return None
    q = draw(st.integers(1, n * m + 1))
    return {"q": q, "A": gen.mat(draw, q, n * m, cplx, 6, 2), "form": draw(st.sampled_from(["matrix", "function"]))}


CALLS = ["updatex", "updatey", "updatexy", "val2", "val1", "gradx", "grady", "grad", "matvec", "mx", "my", "lx", "ly"]


@gen.mk
def hist(draw):
    n, k, m = draw(st.integers(1, 5)), draw(st.integers(1, 4)), draw(st.integers(1, 5))
    cplx = draw(st.integers(0, 2)) == 0
    op = draw_op(draw, n, m, cplx)
    v = lambda s: gen.vec(draw, s, cplx, style=draw(st.sampled_from([(8, 2), (3, 1), (20, 4)])), scale=False)
    calls = []
    for _ in range(draw(st.integers(1, 12))):
        t = draw(st.sampled_from(CALLS))
        calls.append([t, v(n * k), v(k * m)])
    return {"n": n, "k": k, "m": m, "cplx": cplx, "op": op, "x": v(n * k), "y": v(k * m), "d": v(op["q"] if op else n * m), "calls": calls}


def mk(c):
    n, k, m = c["n"], c["k"], c["m"]
    A = Op = None
    if c["op"]:
        A = gen.arr(c["op"]["A"], (c["op"]["q"], n * m))
        Op = pylops.MatrixMult(A, dtype=A.dtype) if c["op"]["form"] == "matrix" else pylops.FunctionOperator(
            lambda v: A @ v, lambda v: A.conj().T @ v, A.shape[0], A.shape[1], dtype=A.dtype)
    x, y, d = gen.arr(c["x"]), gen.arr(c["y"]), gen.arr(c["d"])
    X, Y = x.reshape(n, k).copy(), y.reshape(k, m).copy()
    return LowRankFactorizedMatrix(X, Y, d, Op), recur.LowRank(n, k, m, d.copy(), A), x, y, (X, Y, d), A


def num(a, b, what, s):
    if not abs(float(a) - b) <= 1e-10 * (s + abs(b)):
        raise Violation("%s is %r, expected %r" % (what, a, b))


@sub("histories", hist, quick=900)
def _(c):
    H, R, x, y, given, A = mk(c)
    snap = [g.copy() for g in given]
    na = 1 if A is None else 1 + np.linalg.norm(A)
    upd = ev = 0
    for i, (t, xs, ys) in enumerate(c["calls"]):
        u, v = gen.arr(xs), gen.arr(ys)
        args = [u.copy(), v.copy()]
        what = "%s in call %d of %s" % (t, i + 1, [q[0] for q in c["calls"]])
        s = (1 + na * (nrm(u) + nrm(x)) * (nrm(v) + nrm(y)) + nrm(R.d)) * na * (1 + nrm(u) + nrm(v) + nrm(x) + nrm(y))
        if t == "updatex":
            H.updatex(u)
            x = u
            upd += 1
        elif t == "updatey":
            H.updatey(v)
            y = v
            upd += 1
        elif t == "updatexy":
            H.updatexy(np.concatenate([u, v]))
            x, y = u, v
            upd += 1
        elif t == "val2":
            num(H(u, v), R.val(u, v), what, s * s)
        elif t == "val1":
            num(H(np.concatenate([u, v])), R.val(u, v), what, s * s)
        elif t == "gradx":
            same(out(H.gradx(u), u.shape, what), R.gx(u, y), what, s, 1e-10)
        elif t == "grady":
            same(out(H.grady(v), v.shape, what), R.gy(x, v), what, s, 1e-10)
        elif t == "grad":
            same(out(H.grad(np.concatenate([u, v])), (u.size + v.size,), what), np.concatenate([R.gx(u, y), R.gy(x, v)]), what, s, 1e-10)
        elif t == "lx" and A is None:
            X = u.reshape(c["n"], c["k"])
            e = np.linalg.svd(X, compute_uv=False) ** 2
            if not e.max() * (1 - 1e-9) <= H.lx(u) <= e.sum() * (1 + 1e-9) + 1e-300:
                raise Violation("%s is %r, the gradient over y varies with constant %r (eigenvalues %s)" % (what, H.lx(u), e.max(), e))
        elif t == "ly" and A is None:
            Y = v.reshape(c["k"], c["m"])
            e = np.linalg.svd(Y, compute_uv=False) ** 2
            if not e.max() * (1 - 1e-9) <= H.ly(v) <= e.sum() * (1 + 1e-9) + 1e-300:
                raise Violation("%s is %r, the gradient over x varies with constant %r (eigenvalues %s)" % (what, H.ly(v), e.max(), e))
        elif t in ("mx", "my", "matvec"):
            # products of one given and one stored factor; both sizes differ unless n == m
            if c["n"] != c["m"]:
                w = R.res(u, y) + R.d
                g = H.matvec(u)
                same(out(g, w.shape, what), w, what + " (x)", s, 1e-10)
                w = R.res(x, v) + R.d
                same(out(H.matvec(v), w.shape, what), w, what + " (y)", s, 1e-10)
        if t not in ("updatex", "updatey", "updatexy"):
            ev += 1
            for a, b, nme in ((H.x, x, "x"), (H.y, y, "y")):
                if not np.array_equal(np.ravel(a), b):
                    raise Violation("%s changes the stored %s from %s to %s" % (what, nme, b, a))
        if not (np.array_equal(u, args[0]) and np.array_equal(v, args[1])):
            raise Violation("%s modifies its argument" % what)
    for a, b in zip(given, snap):
        if not np.array_equal(a, b):
            raise Violation("an array given to the constructor changed from %s to %s" % (b, a))
    return "%s%s" % ("op" if A is not None else "plain", "-c" if c["cplx"] else "") if upd and ev else ""


@gen.mk
def der(draw):
    c = {}
    n, k, m = draw(st.integers(1, 5)), draw(st.integers(1, 4)), draw(st.integers(1, 5))
    cplx = draw(st.integers(0, 2)) == 0
    op = draw_op(draw, n, m, cplx)
    v = lambda s: gen.vec(draw, s, cplx, style=(8, 2), scale=False)
    return {"n": n, "k": k, "m": m, "cplx": cplx, "op": op, "x": v(n * k), "y": v(k * m), "d": v(op["q"] if op else n * m), "dx": v(n * k), "dy": v(k * m), "x2": v(n * k), "y2": v(k * m),
            "upd": draw(st.booleans())}


@sub("derivative", der, quick=400)
def _(c):
    """gradients are derivatives of the operator's own values; constants bound their variation"""
    H, R, x, y, given, A = mk(c)
    if c["upd"]:
        x, y = gen.arr(c["x2"]), gen.arr(c["y2"])
        H.updatexy(np.concatenate([x, y]))
    dx, dy = gen.arr(c["dx"]), gen.arr(c["dy"])
    s = 1 + (1 if A is None else np.linalg.norm(A) ** 2) * (1 + nrm(x) + nrm(dx)) ** 2 * (1 + nrm(y) + nrm(dy)) ** 2 + nrm(R.d) ** 2
    h = 2.0 ** -8

    def quad(fn):
        # values along a direction in one block are quadratic: central differences are exact
        return (fn(h) - fn(-h)) / (2 * h)
    for nme, g, d, fn in (("x", H.gradx(x), dx, lambda t: H(x + t * dx, y)), ("y", H.grady(y), dy, lambda t: H(x, y + t * dy))):
        a, b = float(np.real(np.vdot(g, d))), quad(fn)
        if abs(a - b) > 1e-9 * s / h:
            raise Violation("gradient over %s: slope %r along %s, the values have %r" % (nme, a, d, b))
    g = H.grad(np.concatenate([x, y]))
    if nrm(g - np.concatenate([H.gradx(x), H.grady(y)])) > 1e-10 * s:
        raise Violation("joint gradient %s is not the stack of the partial ones" % g)
    if A is None:
        for nme, L, g1, g2, d in (("x", H.ly(y), H.gradx(x), H.gradx(x + dx), dx), ("y", H.lx(x), H.grady(y), H.grady(y + dy), dy)):
            if nrm(g1 - g2) > L * nrm(d) * (1 + 1e-9) + 1e-9 * s:
                raise Violation("gradient over %s varies by %g over a distance %g, more than its constant %g allows" % (nme, nrm(g1 - g2), nrm(d), L))
    return "%s%s" % ("op" if A is not None else "plain", "-c" if c["cplx"] else "") if mx(dx) > 0 and mx(dy) > 0 and mx(x) > 0 and mx(y) > 0 else ""
