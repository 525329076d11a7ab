"""C10 operators acting on singular values."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen, ops
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out, rdot, same, same_num, scalar

RULE = ("cases: matrices 1x1..7x7 assembled from drawn singular values (repeats, zeros, thresholds) and unitary factors, or "
        "small integer matrices; non-trivial: at least two rows and columns and the prox changes the singular values")
ASSUMPTIONS = ["unitary factors from QR of seeded normal matrices; singular values compared with LAPACK gesvd",
               "points where a thresholding rule jumps within 1e-7 relative are skipped for non-convex penalties",
               "the value of QuadraticEnvelopeRankL2 belongs to C01"]

PEN = ["L1", "L2", "Huber", "HuberCircular", "Euclidean", "L1Ball", "EuclideanBall", "L0", "Log", "Log1", "ETP", "Geman",
       "SCAD", "QECard", "QECardInd", "L0Ball", "RelaxedMS", "Box"]


def unitary(k, seed, cplx):
    g = gen.rng(seed)
    Z = g.standard_normal((k, k)) + (1j * g.standard_normal((k, k)) if cplx else 0)
    return np.linalg.qr(Z)[0]


def draw_dims(draw):
    return draw(st.integers(1, 7)), draw(st.integers(1, 7))


def draw_mat(draw, special=(), dims=None):
    m, n = dims or draw_dims(draw)
    cplx = draw(st.integers(0, 2)) == 0
    k = min(m, n)
    if draw(st.integers(0, 3)) == 0:
        return {"m": m, "n": n, "cplx": cplx, "v": gen.mat(draw, m, n, cplx, k=4, d=draw(st.sampled_from([1, 2])))}
    s = sorted([abs(v) for v in gen.rvec(draw, k, scale=True, special=special)], reverse=True)
    if k > 1 and draw(st.booleans()):
        i = draw(st.integers(0, k - 2))
        if draw(st.booleans()):
            s[i + 1:] = [0.0] * (k - 1 - i)
        else:
            s[i + 1] = s[i]
    return {"m": m, "n": n, "cplx": cplx, "s": s, "u": draw(gen.seeds()), "w": draw(gen.seeds())}


def factors(c):
    """X, U, s, V with X = U diag(s) V"""
    m, n = c["m"], c["n"]
    if "v" in c:
        X = gen.arr(c["v"], (m, n))
        import scipy.linalg
        U, s, V = scipy.linalg.svd(X, full_matrices=False, lapack_driver="gesvd")
        return X, U, s, V
    k = min(m, n)
    U = unitary(m, c["u"], c["cplx"])[:, :k]
    V = unitary(n, c["w"], c["cplx"])[:k]
    s = np.array(c["s"])
    return (U * s) @ V, U, s, V


def lab(c, changed):
    if not changed or min(c["m"], c["n"]) < 2:
        return ""
    return ("tall" if c["m"] > c["n"] else "wide" if c["m"] < c["n"] else "square") + ("-cplx" if c["cplx"] else "")


def draw_w(draw, k):
    t = draw(st.integers(0, 4))
    if t <= 1:
        return gen.pos(draw)
    if t == 2:
        return [gen.pos(draw)]
    w = [gen.pos(draw) for _ in range(k + (draw(st.integers(0, 3)) if t == 4 else 0))]
    # the documented rule is entrywise on the singular values for any order of the weights
    return w if draw(st.booleans()) else sorted(w)


def wvec(w, k):
    return np.full(k, w) if not isinstance(w, list) else (np.full(k, w[0]) if len(w) == 1 else np.array(w[:k]))


@gen.mk
def nuc(draw):
    dims = draw_dims(draw)
    w = draw_w(draw, min(dims))
    tau = gen.pos(draw)
    sp = [tau * v for v in (w if isinstance(w, list) else [w])]
    return {"M": draw_mat(draw, sp, dims), "w": w, "tau": tau, "shuffle": draw(gen.seeds()), "list": draw(st.booleans())}


def dims_of(c, aslist=False):
    return [c["m"], c["n"]] if aslist else (c["m"], c["n"])


def wt(w):
    return np.array(w) if isinstance(w, list) else w


def tied(s, w):
    return any(abs(s[i] - s[j]) < 1e-5 * s[0] and w[i] != w[j] for i in range(s.size) for j in range(i))


@sub("nuclear", nuc, quick=600)
def _(c):
    M, tau = c["M"], c["tau"]
    X, U, s, V = factors(M)
    k = s.size
    w = wvec(c["w"], k)
    op = pp.Nuclear(dims_of(M, c["list"]), wt(c["w"]))
    same_num(scalar(op(X.ravel()), "Nuclear value"), float(np.sum(w * s)), "Nuclear value", float(np.sum(w)) * mx(s), 1e-9)
    if isinstance(c["w"], list) and len(c["w"]) > 1:   # the value holds for any order of weights
        r = gen.rng(c["shuffle"]).permutation(np.array(c["w"]))
        v = scalar(pp.Nuclear(dims_of(M), r)(X.ravel()), "weighted Nuclear value")
        same_num(v, float(np.sum(r[:k] * s)), "weighted Nuclear value", float(np.sum(w)) * mx(s), 1e-9)
    y = out(op.prox(X.ravel().copy(), tau), (X.size,), "Nuclear.prox", cplx=M["cplx"])
    t = np.maximum(s - tau * w, 0)
    if tied(s, w):   # only the singular values are unique
        same(ops.svals(y.reshape(X.shape)), np.sort(t)[::-1], "singular values of Nuclear.prox", mx(s), 1e-9)
        return lab(M, np.any(t != s) and np.any(t > 0))
    same(y, ((U * t) @ V).ravel(), "Nuclear.prox", mx(s), 1e-9)
    if len(set(w.tolist())) == 1:   # certificate of optimality: spectral norm and alignment of the residual
        D = (X - y.reshape(X.shape)) / (tau * w[0])
        sd = ops.svals(D)
        if sd[0] > 1 + 1e-9 * (1 + mx(s) / (tau * w[0])):
            raise Violation("Nuclear.prox: residual/(tau sigma) has spectral norm %.15g > 1" % sd[0])
        g = float(np.sum(t)) - rdot(D, y.reshape(X.shape))
        if abs(g) > 1e-8 * (1e-300 + np.sum(s)) * (1 + mx(s) / (tau * w[0])):
            raise Violation("Nuclear.prox: residual is not aligned with the result (gap %g)" % g)
    return lab(M, np.any(t != s) and np.any(t > 0))


@gen.mk
def ball(draw):
    r = gen.pos(draw)
    M = draw_mat(draw, (r, r / 2))
    return {"M": M, "r": r, "tau": gen.pos(draw), "unit": draw(st.integers(-9, 6)) if draw(st.integers(0, 2)) == 0 else 0}


@sub("nuclear_ball", ball, quick=300)
def _(c):
    M, r = c["M"], c["r"]
    X, U, s, V = factors(M)
    u = 10.0 ** c["unit"]       # the same problem in other units
    X, s, r = X * u, s * u, r * u
    op = pp.NuclearBall(dims_of(M), r, xtol=1e-10 * min(u, 1.0), maxiter=300)
    y = out(op.prox(X.ravel().copy(), c["tau"]), (X.size,), "NuclearBall.prox", cplx=M["cplx"])
    t = ops.proj_l1(s, r)
    e = 1e-9 * (min(u, 1.0) + mx(s))
    if np.sum(s) < r * (1 - 1e-9):      # inside: only the rounding of the factorisation
        e = 1e-11 * mx(s)
    if nrm(y - ((U * t) @ V).ravel()) > e * s.size:
        raise Violation("NuclearBall.prox: singular values %s radius %g\n got %s\n expected %s" % (s, r, ops.svals(y.reshape(X.shape)), t))
    ins = float(np.sum(s)) - r
    if abs(ins) > 2e-5 * (1 + r) and bool(op(X.ravel())) != (ins < 0):
        raise Violation("NuclearBall membership of a matrix with nuclear norm %g, radius %g" % (np.sum(s), r))
    return lab(M, ins > 0)


@gen.mk
def svp(draw):
    dims = draw_dims(draw)
    name = draw(st.sampled_from(PEN))
    o = ops.REG[name]
    p = o.spec(draw, min(dims))
    for k in ("b", "q", "g"):
        p.pop(k, None)
    if "center" in p:
        p["center"] = [0.0] * min(dims) if isinstance(p["center"], list) else 0.0
    tau = gen.pos(draw)
    if name == "SCAD":
        tau = min(tau, o.maxtau(p))
    if name == "Box":
        p.update(lo=-1.0, hi=draw(st.sampled_from([0.5, 1.0, 2.0])))
    return {"M": draw_mat(draw, o.special(p, tau), dims), "p": p, "tau": tau}


@sub("penalty", svp, quick=900)
def _(c):
    M, p, tau = c["M"], c["p"], c["tau"]
    o = ops.get(p)
    X, U, s, V = factors(M)
    op = pp.SingularValuePenalty(dims_of(M), ops.build(p))
    pen = ops.build(p)
    name = p["op"]
    if not o.ind and name not in ("Log1",):
        v = scalar(op(X.ravel().copy()), "SingularValuePenalty value")
        # values with a jump at zero are evaluated at computed singular values
        sc = ops.svals(X) if name == "L0" else s
        ref = o.val(p, sc)
        if name == "L0":
            if mx(s) > 0 and np.any((s < 1e-10 * mx(s))):
                ref = None
            else:
                ref = float(np.count_nonzero(s))
        if ref is not None:
            same_num(v, ref, "SingularValuePenalty(%s) value" % name, ops.vscale(p, s) + 1e-300, 1e-7)
    r = pen.prox(s.copy(), tau)
    for e in (1e-7, -1e-7):
        d = np.zeros_like(s)
        for i in range(s.size):
            d[:] = s
            d[i] = s[i] * (1 + e)
            if mx(pen.prox(d.copy(), tau) - r) > 1e-4 * (mx(s) + mx(r)):
                raise Skip()
    y = out(op.prox(X.ravel().copy(), tau), (X.size,), "SingularValuePenalty.prox", cplx=M["cplx"])
    # entries of an exact zero singular value may be moved along arbitrary singular vectors
    if mx(s) > 0 and np.any((s < 1e-9 * mx(s)) & (np.abs(r) > 1e-9 * mx(s))):
        a, b = ops.svals(y.reshape(X.shape)), np.sort(np.abs(r))[::-1]
        same(a, b, "singular values of SingularValuePenalty(%s).prox" % name, mx(s), 1e-6)
    else:
        same(y, ((U * r) @ V).ravel(), "SingularValuePenalty(%s).prox with singular values %s" % (name, s),
             mx(s) + 1e7 * o.acc(p, s), 1e-6)
    l = lab(M, np.any(r != s) and np.any(r != 0))
    return l and name


@gen.mk
def graded(draw):
    m, n = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    k = min(m, n)
    e = sorted(draw(st.integers(0, 10)) for _ in range(k))
    a = 10.0 ** draw(st.integers(-3, 4))
    s = sorted([a * draw(st.integers(1, 9)) * 10.0 ** -v for v in e], reverse=True)
    name = draw(st.sampled_from(["L1", "L2", "Huber", "Euclidean", "Box", "EuclideanBall", "HuberCircular", "Nuclear", "NuclearBall"]))
    return {"m": m, "n": n, "cplx": draw(st.booleans()), "s": s, "u": draw(gen.seeds()), "w": draw(gen.seeds()), "name": name,
            "par": s[draw(st.integers(0, k - 1))] * draw(st.sampled_from([0.1, 0.5, 2.0])), "tau": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0]))}


@sub("graded", graded, quick=400)
def _(c):
    """small singular values next to large ones are treated as accurately as the decomposition allows"""
    X, U, s, V = factors(c)
    dims, name, r, tau = (c["m"], c["n"]), c["name"], c["par"], c["tau"]
    soft = lambda v, t: np.maximum(v - t, 0)
    if name == "Nuclear":
        op, t, v = pp.Nuclear(dims, r), soft(s, r * tau), r * np.sum(s)
    elif name == "NuclearBall":
        op, t, v = pp.NuclearBall(dims, r, maxiter=300, xtol=1e-14 * s[0]), ops.proj_l1(s, r), None
    else:
        q, t, v = {"L1": lambda: (pp.L1(sigma=r), soft(s, r * tau), r * np.sum(s)),
                   "L2": lambda: (pp.L2(sigma=2.0), s / (1 + 2 * tau), np.sum(s ** 2)),
                   "Huber": lambda: (pp.Huber(r), (1 - tau / np.maximum(s, tau + r)) * s, np.sum(np.where(s > r, s - r / 2, s ** 2 / (2 * r)))),
                   "HuberCircular": lambda: (pp.HuberCircular(r), (1 - tau / max(nrm(s), tau + r)) * s, None),
                   "Euclidean": lambda: (pp.Euclidean(sigma=r), max(1 - r * tau / nrm(s), 0.0) * s, r * nrm(s)),
                   "Box": lambda: (pp.Box(0.0, r), np.minimum(s, r), None),
                   "EuclideanBall": lambda: (pp.EuclideanBall(0.0, r), s * min(1.0, r / nrm(s)), None)}[name]()
        op = pp.SingularValuePenalty(dims, q)
    y = out(op.prox(X.ravel().copy(), tau), (X.size,), name, cplx=c["cplx"])
    ref = ((U * t) @ V).ravel()
    if mx(y - ref) > 1e-13 * s[0] * X.size:
        raise Violation("%s (parameter %g) prox with tau=%g of a matrix with singular values %s: got singular values %s, expected %s, error %g" % (
            name, r, tau, s, ops.svals(y.reshape(X.shape)), t, mx(y - ref)))
    if v is not None:
        e = 1e-13 * s[0] * X.size * (r if name in ("Nuclear", "L1", "Euclidean") else 10 * s[0] if name == "L2" else 1.0)
        if abs(scalar(op(X.ravel().copy()), name) - v) > e:
            raise Violation("%s (parameter %g) of a matrix with singular values %s: %r, expected %r" % (name, r, s, op(X.ravel()), v))
    return name if s[-1] < 1e-5 * s[0] and np.any(t != s) else ""


@gen.mk
def inv(draw):
    M = draw_mat(draw)
    k = min(M["m"], M["n"])
    kind = draw(st.sampled_from(["nuclear", "weighted", "ball", "L1", "Log", "L0", "SCAD", "QECardInd", "rank", "Huber"]))
    c = {"M": M, "kind": kind, "tau": gen.pos(draw), "u": draw(gen.seeds()), "w": draw(gen.seeds()), "s": gen.pos(draw),
         "how": draw(st.sampled_from(["unitary", "T", "conj", "pad"]))}
    if kind == "SCAD":
        c["tau"] = draw(st.sampled_from([0.1, 0.5, 1.0]))
    if kind == "weighted":
        c["ws"] = sorted(gen.pos(draw) for _ in range(k))
    if kind == "rank":
        c["r0"] = draw(st.integers(1, max(1, k - 1)))
        c["Y"] = gen.mat(draw, M["m"], M["n"], M["cplx"], k=4, d=2)
    if kind == "QECardInd":
        c["r0"] = draw(st.integers(1, k))
    return c


def mkop(c, dims, Y=None):
    k, s = c["kind"], c["s"]
    if k == "nuclear":
        return pp.Nuclear(dims, s)
    if k == "weighted":
        return pp.Nuclear(dims, np.array(c["ws"]))
    if k == "ball":
        return pp.NuclearBall(dims, s, xtol=1e-10, maxiter=300)
    if k == "rank":
        return pp.QuadraticEnvelopeRankL2(dims, c["r0"], Y)
    q = {"L1": lambda: pp.L1(sigma=s), "Log": lambda: pp.Log(s, 1.3), "L0": lambda: pp.L0(sigma=s),
         "SCAD": lambda: pp.SCAD(s, 3.7), "QECardInd": lambda: pp.QuadraticEnvelopeCardIndicator(c["r0"]),
         "Huber": lambda: pp.Huber(s)}[k]()
    return pp.SingularValuePenalty(dims, q)


@sub("invariance", inv, quick=500)
def _(c):
    M, tau = c["M"], c["tau"]
    X, _, s, _ = factors(M)
    m, n = X.shape
    if c["kind"] == "rank" and c["r0"] >= min(m, n):
        raise Skip()
    if c["kind"] == "weighted" and tied(s, c["ws"]):
        raise Skip()
    Y = gen.arr(c["Y"], (m, n)) if c["kind"] == "rank" else None
    a = mkop(c, (m, n), Y)
    if c["kind"] in ("Log", "L0", "SCAD", "QECardInd"):   # away from jumps
        r = a.penalty.prox(s.copy(), tau)
        for e in (1e-7, -1e-7):
            for i in range(s.size):
                d = s.copy()
                d[i] *= 1 + e
                if mx(a.penalty.prox(d, tau) - r) > 1e-4 * (mx(s) + mx(r)):
                    raise Skip()
    how = c["how"]
    if how == "pad" and c["kind"] in ("rank", "weighted", "QECardInd"):
        how = "unitary"
    if how == "unitary":
        Q, P = unitary(m, c["u"], M["cplx"]), unitary(n, c["w"], M["cplx"])
        f, g, dims = (lambda Z: Q @ Z @ P), None, (m, n)
    elif how == "T":
        f, dims = (lambda Z: Z.T.copy()), (n, m)
    elif how == "conj":
        f, dims = (lambda Z: Z.conj().copy()), (m, n)
    else:
        f, dims = (lambda Z: np.vstack([Z, np.zeros((2, n))])), (m + 2, n)
    b = mkop(c, dims, None if Y is None else f(Y))
    y1 = out(a.prox(X.ravel().copy(), tau), (m * n,), "prox").reshape(m, n)
    z = f(X)
    y2 = out(b.prox(z.ravel().copy(), tau), (z.size,), "prox").reshape(dims)
    sc = mx(s) + (mx(Y) if Y is not None else 0) * (1 + tau)
    if c["kind"] == "rank" and nrm(y2 - f(y1)) > 1e-6 * (sc + mx(y1)):
        # ties between singular values of the averaged matrix: the dual matrix is unique but the result may not be
        W = (Y + X / tau) / (1 + 1 / tau)
        sw = ops.svals(W)
        if abs(sw[c["r0"] - 1] - sw[c["r0"]]) < 1e-7 * (sw[0] + 1e-300):
            raise Skip()
    same(y2, f(y1), "%s prox after %s transformation" % (c["kind"], how), sc + mx(y1), 1e-6)
    if c["kind"] not in ("rank", "ball", "L0"):
        v1, v2 = scalar(a(X.ravel()), "value"), scalar(b(z.ravel()), "value")
        same_num(v2, v1, "%s value after %s transformation" % (c["kind"], how),
                 (c["s"] + sum(c.get("ws", [0])) + 1) * (np.sum(s) + np.sum(s) ** 2 * (c["kind"] in ("QECardInd", "Huber"))), 1e-8)
    l = lab(M, nrm(y1 - X) > 0 and nrm(y1) > 0)
    return l and c["kind"] + "-" + how


@gen.mk
def indexed(draw):
    m, n = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    k = min(m, n)
    s = np.cumsum([draw(st.sampled_from([0.5, 1.0, 2.0])) for _ in range(k)])[::-1]
    c = {"m": m, "n": n, "s": s.tolist(), "cplx": draw(st.integers(0, 2)) == 0, "seed": draw(gen.seeds()), "tau": gen.pos(draw), "pen": draw(st.sampled_from(["L2", "L1", "L1s", "Box"]))}
    c["v"] = gen.rvec(draw, k, (12, 2), scale=False)
    return c


@sub("indexed_penalty", indexed, quick=300)
def _(c):
    """penalties which differ between the singular values: values attracted to given ones, weights or bounds per value"""
    m, n, s, v, tau = c["m"], c["n"], np.array(c["s"]), np.array(c["v"]), c["tau"]
    rng = gen.rng(c["seed"])
    z = lambda *sh: rng.standard_normal(sh) + (1j * rng.standard_normal(sh) if c["cplx"] else 0)
    U, V = np.linalg.qr(z(m, s.size))[0], np.linalg.qr(z(n, s.size))[0].conj().T
    X = (U * s) @ V
    if c["pen"] == "L2":
        pen, t, val = pp.L2(b=v.copy()), (s + tau * v) / (1 + tau), 0.5 * float(np.sum((s - v) ** 2))
    elif c["pen"] == "L1":
        pen, t, val = pp.L1(g=v.copy()), v + np.sign(s - v) * np.maximum(np.abs(s - v) - tau, 0), float(np.sum(np.abs(s - v)))
    elif c["pen"] == "L1s":
        pen, t, val = pp.L1(sigma=np.abs(v)), np.maximum(s - tau * np.abs(v), 0), None
    else:
        pen, t, val = pp.Box(-np.inf, np.abs(v)), np.minimum(s, np.abs(v)), None
    op = pp.SingularValuePenalty((m, n), pen)
    y = out(op.prox(X.ravel().copy(), tau), (m * n,), "SingularValuePenalty.prox")
    if nrm(y - ((U * t) @ V).ravel()) > 1e-8 * (mx(s) + mx(v)) * s.size:
        raise Violation("SingularValuePenalty(%s %s).prox: singular values %s\n got %s\n expected %s" % (c["pen"], v, s, ops.svals(y.reshape(m, n)), t))
    if val is not None:
        same_num(scalar(op(X.ravel().copy()), "value"), val, "SingularValuePenalty value", s.size * (mx(s) + mx(v)) ** 2, 1e-9)
    return c["pen"] if np.any(np.diff(t) > 1e-6) else ""
