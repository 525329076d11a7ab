"""C29 gradient tests and the Moreau test."""
import contextlib
import io

import numpy as np
import pylops
from hypothesis import strategies as st

import pyproximal as pp
from pyproximal import ProxOperator
from pyproximal.utils.bilinear import BilinearOperator, LowRankFactorizedMatrix
from pyproximal.utils.gradtest import gradtest_bilinear, gradtest_proximal
from pyproximal.utils.moreau import moreau
from vlib import gen, ops, prob
from vlib.core import Violation, sub
from vlib.util import mx

RULE = ("cases: smooth functionals of the library and of our own (quadratics, smoothed absolute values, linear, bilinear, low rank), real and complex, with the right gradient, "
        "gradients wrong everywhere, wrong in a single entry or in a single part, all combinations of tolerances, perturbation sizes and options, many random seeds; "
        "non-trivial: the gradient tested is wrong somewhere, or right and not zero")
ASSUMPTIONS = ["an entry counts as right (wrong) when the difference quotient is within half (beyond twice) the tolerance; in between nothing is claimed",
               "60 n repeated calls reveal a single wrong entry (probability of missing it below 1e-9)"]


class Own(ProxOperator):
    """functional given by callables, gradient optionally wrong"""

    def __init__(self, f, g):
        super().__init__(None, True)
        self.f, self.g, self.seen = f, g, []

    def __call__(self, x):
        self.seen.append((x.dtype, x.shape, np.array(x)))
        return self.f(x)

    def prox(self, x, tau):
        return x

    def grad(self, x):
        return self.g(x)


def call(fn, *a, raiseerror, **kw):
    """verdict as a boolean, checking the promised form"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            r = fn(*a, raiseerror=raiseerror, **kw)
        except (AssertionError, ValueError) as e:
            if not raiseerror:
                raise Violation("%s raises %r although asked not to" % (fn.__name__, e))
            return False
    if not isinstance(r, (bool, np.bool_)):
        raise Violation("%s returns %r" % (fn.__name__, r))
    if raiseerror and not r:
        raise Violation("%s returns False although asked to raise" % fn.__name__)
    return bool(r)


def classify(f, x, g, true, delta, rtol, atol, parts):
    """(n_right, n_wrong, n_unclear) over entries and parts"""
    f0 = f(x)
    ok = bad = 0
    tot = 0
    for i in range(x.size):
        for p in parts:
            y = x.copy()
            y[i] += delta * p
            num = (f(y) - f0) / delta
            ex = g[i].real if p == 1 else g[i].imag
            tr = true[i].real if p == 1 else true[i].imag
            d = abs(num - ex)
            r = 1e-15 * (abs(f0) + 1) / delta
            tot += 1
            if not np.isfinite(ex) or min(d, abs(tr - ex) - abs(num - tr)) - 8 * r > 2 * (atol + rtol * max(abs(num), abs(ex), abs(tr))):
                bad += 1
            elif d + 8 * r <= 0.5 * (atol + rtol * min(abs(num), abs(ex))):
                ok += 1
    return ok, bad, tot - ok - bad


ERR = ["none", "none", "all", "one", "scale", "sign", "zero", "swap", "conj", "nan"]


def corrupt(kind, j, amp, cplx):
    def w(g):
        g = np.array(g)
        if kind == "all":
            g = g + amp * (1 + 1j if cplx else 1)
        elif kind == "one":
            g[j % g.size] += amp * (1j if cplx and j % 2 else 1)
        elif kind == "scale":
            g = g * (1 + amp)
        elif kind == "sign":
            g = -g
        elif kind == "zero":
            g = 0 * g
        elif kind == "swap":
            g = g[::-1].copy()
        elif kind == "conj":
            g = np.conj(g)
        elif kind == "nan":
            g[j % g.size] = np.nan
        return g
    return w


def draw_tol(draw):
    return {"delta": draw(st.sampled_from([1e-6, 1e-6, 1e-5, 1e-4, 1e-3])), "rtol": draw(st.sampled_from([1e-6, 1e-4, 1e-3, 1e-2, 0.1])),
            "atol": draw(st.sampled_from([1e-21, 1e-6, 1e-3, 1e-2])), "seed": draw(st.integers(0, 2 ** 31 - 1)), "raise": draw(st.booleans()), "verb": draw(st.booleans()),
            "err": draw(st.sampled_from(ERR)), "j": draw(st.integers(0, 7)), "amp": draw(st.sampled_from([1.0, 0.1, 0.5, 10.0, 0.01]))}


# ------------------------------------------------------------------ proximal
@gen.mk
def gp(draw):
    cplx = draw(st.booleans())
    n = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["quad", "smooth", "linear", "L2", "L2Op", "Quadratic", "Euclidean", "shifted"]))
    c = {"n": n, "cplx": cplx, "kind": kind}
    if kind in ops.REG:
        c["p"] = ops.REG[kind].spec(draw, n, cplx)
        c["cplx"] = c["p"]["cplx"]
    elif kind == "shifted":
        c["p"] = ops.REG["L2Op"].spec(draw, n, False)     # the linear term of a composition is a real one
        c["cplx"] = c["p"]["cplx"]
    c["w"] = [draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0])) for _ in range(n)]
    c["b"] = gen.vec(draw, n, c["cplx"], style=(8, 2), scale=False)
    c["x"] = gen.vec(draw, n, c["cplx"], style=(20, 4), scale=False)
    c["ro"] = draw(st.booleans())
    c.update(draw_tol(draw))
    return c


def functional(c):
    """(value, gradient, operator with the right gradient or None)"""
    w, b = np.array(c["w"]), gen.arr(c["b"])
    k = c["kind"]
    if k == "quad":
        return (lambda x: float(np.sum(w * np.abs(x - b) ** 2) / 2)), (lambda x: w * (x - b)), None
    if k == "smooth":
        return (lambda x: float(np.sum(w * np.sqrt(1 + np.abs(x - b) ** 2)))), (lambda x: w * (x - b) / np.sqrt(1 + np.abs(x - b) ** 2)), None
    if k == "linear":
        return (lambda x: float(np.real(np.vdot(b, x)))), (lambda x: b + 0 * x), None
    op = ops.build(c["p"]) if k != "shifted" else ops.build(c["p"]) + b
    return (lambda x: float(op(x))), (lambda x: op.grad(x)), op


def verdicts(c, fn, args, kw, calls):
    seen = set()
    for _ in range(calls):
        seen.add(call(fn, *args, raiseerror=c["raise"], **kw))
        if len(seen) == 2:
            break
    return seen


def judge(what, ok, bad, unclear, seen):
    if bad == 0 and unclear == 0 and False in seen:
        raise Violation("%s: the right gradient is reported as wrong" % what)
    if ok == 0 and unclear == 0 and True in seen:
        raise Violation("%s: a gradient wrong in every entry passes" % what)
    if bad and False not in seen:
        raise Violation("%s: gradient wrong in %d of %d entries never detected" % (what, bad, ok + bad + unclear))
    if ok and True not in seen:
        raise Violation("%s: right in %d entries and parts of %d but never passes" % (what, ok, ok + bad + unclear))


@sub("gradtest_proximal", gp, quick=700)
def _(c):
    f, g, op = functional(c)
    x = gen.arr(c["x"])
    if c["kind"] == "Euclidean" and np.linalg.norm(x) < 0.1:
        return ""
    wrong = corrupt(c["err"], c["j"], c["amp"], c["cplx"])
    G = np.array(g(x))
    if c["cplx"] != np.iscomplexobj(G) and c["kind"] != "linear":
        G = G + 0 * x
    parts = (1, 1j) if c["cplx"] else (1,)
    ok, bad, unclear = classify(f, x, wrong(G), G, c["delta"], c["rtol"], c["atol"], parts)
    t = Own(f, lambda v: wrong(g(v)))
    keep = x.copy()
    if c["ro"]:
        x.setflags(write=False)
    np.random.seed(c["seed"])
    kw = dict(x=x, delta=c["delta"], rtol=c["rtol"], atol=c["atol"], complexflag=c["cplx"], verb=c["verb"])
    calls = 60 * c["n"] if ok or bad else 3
    if bad == 0 and unclear == 0:
        calls = 6 * c["n"]
    seen = verdicts(c, gradtest_proximal, (t, c["n"]), kw, calls)
    if not np.array_equal(x, keep):
        raise Violation("gradtest_proximal modifies the point it is given")
    judge("gradtest_proximal(%s n=%d %s, gradient: %s, delta=%g, rtol=%g, atol=%g)" % (
        c["kind"], c["n"], "complex" if c["cplx"] else "real", c["err"], c["delta"], c["rtol"], c["atol"]), ok, bad, unclear, seen)
    if op is not None and c["err"] == "none" and bad == 0 and unclear == 0:
        if not call(gradtest_proximal, op, c["n"], raiseerror=c["raise"], **kw):
            raise Violation("gradtest_proximal rejects %s" % c["kind"])
    if bad and ok:
        return "mixed-" + c["err"]
    return ("right-" if ok else "wrong-") + c["kind"] if (ok or bad) and mx(G) > 0 else ""


@gen.mk
def rnd(draw):
    c = {"n": draw(st.integers(1, 6)), "cplx": draw(st.booleans()), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "w": draw(st.sampled_from([0.5, 1.0, 2.0]))}
    c.update(draw_tol(draw))
    c["err"] = draw(st.sampled_from(["none", "all", "one", "conj"]))
    c["amp"] = 3.0
    return c


@sub("random_point", rnd, quick=300)
def _(c):
    """x=None: the utility draws its own points"""
    n, w = c["n"], c["w"]
    wrong = corrupt(c["err"], c["j"], c["amp"], c["cplx"])
    delta = max(c["delta"], 1e-3) if c["dtype"] == "float32" else c["delta"]
    acc = w * delta + (1e-5 * 40 * n / delta if c["dtype"] == "float32" else 1e-14 * 40 * n / delta)
    atol = 2 * acc
    if atol > 1:
        return ""
    t = Own(lambda x: float(np.sum(w * np.abs(x.astype(complex)) ** 2) / 2), lambda x: wrong(w * x))
    np.random.seed(c["seed"])
    kw = dict(delta=delta, rtol=1e-6, atol=atol, complexflag=c["cplx"], verb=c["verb"], dtype=c["dtype"])
    what = "gradtest_proximal(n=%d, complexflag=%s, gradient: %s) at its own points" % (n, c["cplx"], c["err"])
    seen = verdicts(c, gradtest_proximal, (t, n), kw, 60 * n)
    if c["err"] == "none" and False in seen:
        raise Violation(what + ": right gradient rejected")
    if c["err"] == "all" and True in seen:
        raise Violation(what + ": gradient wrong everywhere accepted")
    if c["err"] == "one" or (c["err"] == "conj" and c["cplx"]):
        if False not in seen:
            raise Violation(what + ": never rejected")
    if c["err"] == "one" and n > 1 and True not in seen:
        raise Violation(what + ": never accepted although %d of %d entries are right" % (n - 1, n))
    for d, s, v in t.seen:
        if s != (n,) or (d.kind == "c") != c["cplx"]:
            raise Violation("%s: draws a point of shape %s and type %s" % (what, s, d))
    pts = np.array([v for _, _, v in t.seen[::2]])
    if len(pts) > 8 and np.max(np.std(pts, axis=0)) == 0:
        raise Violation(what + ": always the same point")
    return c["err"]


# ------------------------------------------------------------------ bilinear
class Bil(BilinearOperator):
    """H(x,y) = sum_ij Re(conj(x_i) M_ij y_j) + |x|^2/2, gradients optionally wrong"""

    def __init__(self, M, x, y, wx, wy):
        super().__init__()
        self.M, self.x, self.y = M, x, y
        self.sizex, self.sizey = M.shape
        self.wx, self.wy = wx, wy

    def __call__(self, x, y=None):
        if y is None:
            x, y = x[:self.sizex], x[self.sizex:]
        return float(np.real(np.vdot(x, self.M @ y)) + np.linalg.norm(x) ** 2 / 2)

    def gradx(self, x):
        return self.wx(self.M @ self.y.ravel() + x)

    def grady(self, y):
        return self.wy(self.M.conj().T @ self.x.ravel())

    def grad(self, v):
        return np.concatenate([self.gradx(v[:self.sizex]), self.grady(v[self.sizex:])])

    def lx(self, x):
        return 1.0

    def ly(self, y):
        return 1.0


class LR(LowRankFactorizedMatrix):
    def __init__(self, X, Y, d, Op, wx, wy):
        super().__init__(X, Y, d, Op)
        self.wx, self.wy = wx, wy

    def gradx(self, x):
        return self.wx(super().gradx(x))

    def grady(self, y):
        return self.wy(super().grady(y))


@gen.mk
def gb(draw):
    cplx = draw(st.booleans())
    kind = draw(st.sampled_from(["own", "lowrank", "lowrankop"]))
    n, m, k = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 2))
    if kind == "own":
        k = 1
    c = {"kind": kind, "n": n, "m": m, "k": k, "cplx": cplx, "M": gen.mat(draw, n, m, cplx), "X": gen.vec(draw, n * k, cplx, style=(8, 2), scale=False),
         "Y": gen.vec(draw, k * m, cplx, style=(8, 2), scale=False), "d": gen.vec(draw, n * m, cplx, style=(8, 2), scale=False), "A": gen.mat(draw, n * m, n * m, cplx),
         "where": draw(st.sampled_from(["x", "y", "both"])), "flag": cplx and draw(st.integers(0, 3)) > 0}
    c.update(draw_tol(draw))
    if draw(st.integers(0, 3)) == 0:         # a single wrong entry at either end of a part, beyond doubt
        c.update(err="one", amp=10.0, j=draw(st.sampled_from([-1, -2, 0])), delta=1e-5, rtol=1e-3, atol=1e-3)
    return c


@sub("gradtest_bilinear", gb, quick=600)
def _(c):
    n, m, k = c["n"], c["m"], c["k"]
    wrong, right = corrupt(c["err"], c["j"], c["amp"], c["cplx"]), lambda g: g
    wx = wrong if c["where"] in ("x", "both") else right
    wy = wrong if c["where"] in ("y", "both") else right
    X, Y, d, M = gen.arr(c["X"]), gen.arr(c["Y"]), gen.arr(c["d"]), gen.arr(c["M"], (n, m))
    A = gen.arr(c["A"], (n * m, n * m))
    if c["kind"] == "own":
        op = Bil(M, X, Y, wx, wy)
        f = lambda x, y: float(np.real(np.vdot(x, M @ y)) + np.linalg.norm(x) ** 2 / 2)
        gx, gy = M @ Y + X, M.conj().T @ X
    else:
        A = A if c["kind"] == "lowrankop" else np.eye(n * m)
        op = LR(X.reshape(n, k), Y.reshape(k, m), d, pylops.MatrixMult(A, dtype=A.dtype) if c["kind"] == "lowrankop" else None, wx, wy)
        f = lambda x, y: float(np.linalg.norm(A @ (x.reshape(n, k) @ y.reshape(k, m)).ravel() - d) ** 2 / 2)
        R = (A.conj().T @ (A @ (X.reshape(n, k) @ Y.reshape(k, m)).ravel() - d)).reshape(n, m)
        gx, gy = (R @ Y.reshape(k, m).conj().T).ravel(), (X.reshape(n, k).conj().T @ R).ravel()
    parts = (1, 1j) if c["flag"] else (1,)
    a = classify(lambda v: f(v, Y), X, wx(gx), gx, c["delta"], c["rtol"], c["atol"], parts)
    b = classify(lambda v: f(X, v), Y, wy(gy), gy, c["delta"], c["rtol"], c["atol"], parts)
    ok, bad, unclear = (u + v for u, v in zip(a, b))
    keep = op.x.copy(), op.y.copy(), d.copy()
    np.random.seed(c["seed"])
    kw = dict(delta=c["delta"], rtol=c["rtol"], atol=c["atol"], complexflag=c["flag"], verb=c["verb"])
    N = max(X.size, Y.size)
    calls = 120 * N if ok or bad else 3
    if bad == 0 and unclear == 0:
        calls = 8 * N
    seen = verdicts(c, gradtest_bilinear, (op,), kw, calls)
    if not (np.array_equal(op.x, keep[0]) and np.array_equal(op.y, keep[1]) and np.array_equal(d, keep[2]) and op.x.shape == keep[0].shape and op.y.shape == keep[1].shape):
        raise Violation("gradtest_bilinear modifies the operator it tests")
    judge("gradtest_bilinear(%s %dx%dx%d %s, gradient over %s: %s, delta=%g, rtol=%g, atol=%g)" % (
        c["kind"], n, k, m, "complex" if c["flag"] else "real", c["where"], c["err"], c["delta"], c["rtol"], c["atol"]), ok, bad, unclear, seen)
    if bad and ok:
        return "mixed-%s-%s" % (c["where"], c["err"])
    return ("right-" if ok else "wrong-") + c["kind"] if (ok or bad) and max(mx(gx), mx(gy)) > 0 else ""


# ------------------------------------------------------------------ Moreau
class Wrap(ProxOperator):
    def __init__(self, p, what, err):
        super().__init__(None, False)
        self.p, self.what, self.err = p, what, err

    def __call__(self, x):
        return self.p(x)

    def prox(self, x, tau):
        y = self.p.prox(x, tau)
        return self.err(y) if self.what == "prox" else y

    def proxdual(self, x, tau):
        y = self.p.proxdual(x, tau)
        return self.err(y) if self.what == "dual" else y


MOREAU = [k for k in ops.REG if ops.REG[k].convex and k not in ("Nuclear",)]


@gen.mk
def mo(draw):
    name = draw(st.sampled_from(sorted(MOREAU)))
    o = ops.REG[name]
    p = o.spec(draw, max(o.minn, draw(st.integers(1, 6))), draw(st.booleans()))
    tau = gen.pos(draw)
    return {"p": p, "tau": tau, "x": o.x(draw, p, tau), "tol": draw(st.sampled_from([1e-5, 1e-5, 1e-8, 1e-3, 0.1])), "what": draw(st.sampled_from(["prox", "dual"])),
            "err": draw(st.sampled_from(["none", "none", "one", "all", "scale", "nan", "sign", "mirror", "mirror", "turn"])), "j": draw(st.integers(0, 7)), "amp": draw(st.sampled_from([1.0, 3.0, 0.1])),
            "raise": draw(st.booleans()), "verb": draw(st.booleans()), "ro": draw(st.booleans())}


@sub("moreau", mo, quick=700)
def _(c):
    p, tau = c["p"], c["tau"]
    o = ops.get(p)
    x = o.arr(p, c["x"])
    op = o.build(p)
    S = mx(x) + 1
    amp = (c["amp"] * (S + 10 * c["tol"]))
    if c["what"] == "dual":
        amp = amp / tau
    base = corrupt(c["err"], c["j"], amp if c["err"] in ("one", "all") else c["amp"], False)
    y, d = np.array(op.prox(x.copy(), tau)), np.array(op.proxdual(x / tau, 1.0 / tau))

    def err(v):
        if c["err"] in ("mirror", "turn"):      # the two add up to -x, or to x turned in the complex plane
            u = (-1 if c["err"] == "mirror" or not np.iscomplexobj(x) else np.exp(1j)) * x
            return u - tau * d0 if c["what"] == "prox" else (u - y0) / tau
        return base(np.array(v, dtype=complex if np.iscomplexobj(v) else float).ravel()).reshape(np.shape(v))
    y0, d0 = y, d
    t = Wrap(op, c["what"], err if c["err"] != "none" else (lambda v: v))
    if c["err"] != "none":
        y, d = (err(y), d) if c["what"] == "prox" else (y, err(d))
    e = np.abs(x - y - tau * d)
    lim = c["tol"] + 1e-5 * np.maximum(np.abs(x), np.abs(y + tau * d))
    keep = x.copy()
    if c["ro"]:
        x.setflags(write=False)
    v = call(moreau, t, x, tau, tol=c["tol"], verb=c["verb"], raiseerror=c["raise"])
    if not np.array_equal(x, keep):
        raise Violation("moreau modifies the vector it is given")
    what = "moreau(%s, tau=%g, tol=%g), error of the %s: %s" % (p["op"], tau, c["tol"], c["what"], c["err"])
    fine = np.all(np.isfinite(e)) and np.all(e <= 0.5 * (c["tol"] + 1e-5 * np.minimum(np.abs(x), np.abs(y + tau * d))))
    broken = not np.all(np.isfinite(e)) or np.any(e > 2 * lim)
    if fine and not v:
        raise Violation("%s: identity holds to %g and is rejected" % (what, mx(e)))
    if broken and v:
        raise Violation("%s: identity broken by %g and accepted" % (what, mx(e)))
    if c["err"] == "none" and not o.ind and not v and o.acc(p, x) * 10 < c["tol"] and mx(x) < 1e6:
        raise Violation("%s: rejected for an operator of the library" % what)
    return "%s-%s" % ("pass" if v else "fail", c["err"]) if mx(x) > 0 and mx(y) > 0 else ""
