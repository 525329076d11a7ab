"""C12 total variation."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen
from vlib.core import HarnessError, Violation, sub
from vlib.util import mx, nrm, out, same, same_num, scalar

RULE = ("cases: arrays of 1-4 dimensions (each side 2..7, 1-D up to 40), real/complex, piecewise constant or integer noise, "
        "sigma, tau, iteration counts; non-trivial: the array is not constant")
ASSUMPTIONS = ["reference minimiser from an independent restarted accelerated dual method on explicit difference matrices, "
               "certified by its duality gap",
               "k iterations of the accelerated dual method are within 4 gamma sqrt(d N)/(k+1) of the minimiser "
               "(the guaranteed rate of the algorithm the documentation cites); the prox must meet this bound"]


def draw_dims(draw, small=False):
    nd = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
    if nd == 1:
        return [draw(st.integers(2, 40 if not small else 20))]
    top = {2: 7, 3: 4, 4: 3}[nd]
    return [draw(st.integers(2, top)) for _ in range(nd)]


def draw_img(draw, dims):
    N = int(np.prod(dims))
    kind = draw(st.integers(0, 3))
    cplx = draw(st.integers(0, 4)) == 0
    c = {"dims": dims, "cplx": cplx}
    if kind == 0 or N > 64:
        c["seed"], c["k"] = draw(gen.seeds()), kind
    else:
        c["v"] = gen.vec(draw, N, cplx, style=(4, 1) if kind < 3 else (20, 4), scale=False)
    return c


def img(c):
    N = int(np.prod(c["dims"]))
    if "v" in c:
        return gen.arr(c["v"])
    g = gen.rng(c["seed"])
    z = g.integers(-3, 4, N) + 0.25 * g.standard_normal(N)
    if c["cplx"]:
        z = z + 1j * g.integers(-3, 4, N)
    if c["k"] == 1:   # blocky
        z = z.reshape(c["dims"]).copy()
        z[: (c["dims"][0] + 1) // 2] = 2.0
        z = z.ravel()
    return z


def dmats(dims):
    """forward differences with zero at the end, one dense matrix per axis"""
    N = int(np.prod(dims))
    I = np.arange(N).reshape(dims)
    out_ = []
    for ax in range(len(dims)):
        D = np.zeros((N, N))
        a = np.take(I, range(dims[ax] - 1), axis=ax).ravel()
        b = np.take(I, range(1, dims[ax]), axis=ax).ravel()
        D[a, b] += 1
        D[a, a] -= 1
        out_.append(D)
    return np.stack(out_)


def tv(Ds, x):
    return float(np.sum(np.sqrt(np.sum(np.abs(Ds @ x) ** 2, axis=0))))


@gen.mk
def vcase(draw):
    dims = draw_dims(draw)
    return {"x": draw_img(draw, dims), "s": gen.pos(draw), "none": draw(st.booleans())}


@sub("value", vcase, quick=500)
def _(c):
    x, dims = img(c["x"]), c["x"]["dims"]
    op = pp.TV(None if c["none"] and len(dims) == 1 else tuple(dims), sigma=c["s"])
    v = scalar(op(x.copy()), "TV value")
    same_num(v, c["s"] * tv(dmats(dims), x), "TV value of %s" % dims, c["s"] * mx(x), 1e-9)
    return "%dd%s" % (len(dims), "c" if c["x"]["cplx"] else "") if v > 0 else ""


def reference(Ds, x, gam, tol):
    """argmin gam TV(y) + |y-x|^2/2 with error bound sqrt(2 gap)"""
    d = Ds.shape[0]
    N = x.size
    D = Ds.reshape(d * N, N)
    p = np.zeros((d, N), dtype=x.dtype)
    q, t = p.copy(), 1.0
    L = gam * 4 * d
    best = None
    yold = None
    for it in range(20000):
        y = x - gam * (D.T @ q.ravel())
        pn = q + (Ds @ y) / L
        pn = pn / np.maximum(1, np.sqrt(np.sum(np.abs(pn) ** 2, axis=0)))
        if np.real(np.vdot(q - pn, pn - p)) > 0:
            t = 1.0
        tn = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
        q = pn + (t - 1) / tn * (pn - p)
        p, t = pn, tn
        if it % 20 == 19:
            y = x - gam * (D.T @ p.ravel())
            gap = gam * tv(Ds, y) - gam * float(np.real(np.vdot(p, Ds @ y)))
            if best is None or gap < best[0]:
                best = (max(gap, 0.0), y)
            if gap <= tol:
                break
    return best[1], np.sqrt(2 * best[0])


@gen.mk
def mcase(draw):
    dims = draw_dims(draw)
    return {"x": draw_img(draw, dims), "s": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])),
            "tau": draw(st.sampled_from([0.05, 0.3, 1.0, 2.0])), "k": draw(st.sampled_from([20, 100, 400, 400, 1000])),
            "fun": draw(st.booleans()), "none": draw(st.booleans())}


@sub("minimiser", mcase, quick=80)
def _(c):
    x, dims = img(c["x"]), c["x"]["dims"]
    gam = c["s"] * c["tau"]
    k = c["k"]
    op = pp.TV(None if c["none"] and len(dims) == 1 else tuple(dims), sigma=c["s"], niter=(lambda i: k) if c["fun"] else k, rtol=0.0)
    y = out(op.prox(x.copy(), c["tau"]), x.shape, "TV.prox", cplx=c["x"]["cplx"])
    Ds = dmats(dims)
    bound = 4 * gam * np.sqrt(len(dims) * x.size) / (k + 1)
    ref, err = reference(Ds, x, gam, 0.5 * (0.02 * bound) ** 2)
    bound += err + 1e-9 * (mx(x) + gam)
    if err > 0.3 * bound + 1e-3 * gam:
        raise HarnessError("reference not converged: %g against %g" % (err, bound))
    e = nrm(y - ref)
    if e > bound:
        raise Violation("TV.prox(%s, sigma=%g, tau=%g) after %d iterations is at distance %g of the minimiser (guaranteed %g)" % (
            dims, c["s"], c["tau"], k, e, bound))
    if k >= 1000:
        P = lambda z: gam * tv(Ds, z) + 0.5 * nrm(z - x) ** 2
        if P(y) > P(x) + 1e-9 * (1 + P(x)):
            raise Violation("TV.prox has a larger objective (%g) than its input (%g)" % (P(y), P(x)))
    return "%dd%s" % (len(dims), "c" if c["x"]["cplx"] else "") if tv(Ds, x) > 0 else ""


@gen.mk
def pcase(draw):
    nd = draw(st.sampled_from([2, 2, 3]))
    dims = [draw(st.integers(2, 4)) for _ in range(nd)]
    N = int(np.prod(dims))
    return {"x": {"dims": dims, "cplx": True, "v": gen.cvec(draw, N, style=(4, 1), scale=False)}, "s": draw(st.sampled_from([0.1, 0.5, 1.0])),
            "tau": draw(st.sampled_from([0.3, 1.0, 2.0])), "k": draw(st.sampled_from([3000, 6000]))}


@sub("complex_minimiser", pcase, quick=40)
def _(c):
    """small complex images whose differences along the axes have unrelated phases, many iterations"""
    x, dims = img(c["x"]), c["x"]["dims"]
    gam, k = c["s"] * c["tau"], c["k"]
    y = out(pp.TV(tuple(dims), sigma=c["s"], niter=k, rtol=0.0).prox(x.copy(), c["tau"]), x.shape, "TV.prox", cplx=True)
    Ds = dmats(dims)
    bound = 4 * gam * np.sqrt(len(dims) * x.size) / (k + 1)
    ref, err = reference(Ds, x, gam, 0.5 * (0.02 * bound) ** 2)
    if err > 0.3 * bound:
        raise HarnessError("reference not converged: %g against %g" % (err, bound))
    e = nrm(y - ref)
    if e > bound + err + 1e-9 * (mx(x) + gam):
        raise Violation("TV.prox(%s, complex, sigma=%g, tau=%g) after %d iterations is at distance %g of the minimiser (guaranteed %g)" % (
            dims, c["s"], c["tau"], k, e, bound))
    return "%dd" % len(dims) if nrm(ref - x) > bound and tv(Ds, ref) > 0 else ""


@gen.mk
def icase(draw):
    dims = draw_dims(draw)
    return {"x": draw_img(draw, dims), "s": gen.pos(draw), "tau": gen.pos(draw), "k": draw(st.integers(0, 40)),
            "rtol": draw(st.sampled_from([0.0, 1e-8, 1e-4, 1e-2, 0.5])), "c": gen.num(draw, style=(20, 4)),
            "lam": draw(st.sampled_from([0.5, 2.0, 4.0])), "calls": draw(st.integers(1, 3))}


@sub("invariants", icase, quick=300)
def _(c):
    x, dims = img(c["x"]), tuple(c["x"]["dims"])
    s, tau, k = c["s"], c["tau"], c["k"]
    op = pp.TV(dims, sigma=s, niter=k, rtol=c["rtol"])
    for _ in range(c["calls"]):
        x0 = x.copy()
        y = out(op.prox(x0, tau), x.shape, "TV.prox", cplx=c["x"]["cplx"])
        if not np.array_equal(x0, x):
            raise Violation("TV.prox modified its input")
    sc = mx(x) + s * tau * 4 * len(dims)
    if abs(np.mean(y) - np.mean(x)) > 1e-10 * sc:
        raise Violation("TV.prox changed the mean from %s to %s" % (np.mean(x), np.mean(y)))
    z = np.full(x.shape, c["c"] + 0 * x[0])
    w = out(op.prox(z.copy(), tau), x.shape, "TV.prox")
    same(w, z, "TV.prox of a constant array", 0, 1e-12)
    f = pp.TV(dims, sigma=s, niter=k, rtol=0.0)
    y0 = f.prox(x.copy(), tau)
    same(f.prox(x + c["c"], tau), y0 + c["c"], "TV.prox of a shifted array", sc + abs(c["c"]), 1e-7)
    same(f.prox(c["lam"] * x, c["lam"] * tau), c["lam"] * y0, "TV.prox of a scaled array", c["lam"] * sc, 1e-7)
    same(pp.TV(dims, sigma=2 * s, niter=k, rtol=0.0).prox(x.copy(), tau / 2), y0, "TV.prox with 2 sigma and tau/2", sc, 1e-7)
    if len(dims) > 1:   # the order of the axes does not matter
        t = pp.TV(dims[::-1], sigma=s, niter=k, rtol=0.0)
        yt = t.prox(x.reshape(dims).T.ravel(), tau).reshape(dims[::-1]).T.ravel()
        same(yt, y0, "TV.prox of the transposed array", sc, 1e-7)
    if not c["x"]["cplx"]:
        same(f.prox(-x, tau), -y0, "TV.prox of -x", sc, 1e-7)
    # Moreau identity through the derived dual
    d = out(f.proxdual(x / tau, 1 / tau), x.shape, "TV.proxdual")
    same(y0 + tau * d, x, "Moreau identity", sc, 1e-9)
    return "%dd" % len(dims) if mx(x - x[0]) > 0 else ""


@gen.mk
def longc(draw):
    N = draw(st.sampled_from([30, 50, 80]))
    return {"N": N, "seed": draw(st.integers(0, 10 ** 6)), "kind": draw(st.sampled_from(["walk", "noise", "ramp"])), "gam": draw(st.sampled_from([1.0, 2.0, 10.0])),
            "s": draw(st.sampled_from([0.1, 1.0, 10.0])), "k": draw(st.sampled_from([500, 1000, 2000, 4000]))}


@sub("long_signals", longc, quick=30, budget=(40, 600))
def _(c):
    """signals so long that the weight only takes effect over many iterations: the minimiser is the mean, the reference a plain dual accelerated gradient method"""
    N, k = c["N"], c["k"]
    r = gen.rng(c["seed"])
    x = {"walk": np.cumsum(r.standard_normal(N)), "noise": r.standard_normal(N) + np.linspace(0, 1, N), "ramp": np.linspace(-1, 1, N)}[c["kind"]]
    x = np.round(x * 64) / 64
    gam = c["gam"] * max(np.max(np.abs(np.cumsum(x - np.mean(x)))), 0.1)      # at least the weight from which on the minimiser is constant
    y = out(pp.TV((N,), sigma=c["s"], niter=k, rtol=0.0).prox(x.copy(), gam / c["s"]), x.shape, "TV.prox")
    p, q, t = np.zeros(N - 1), np.zeros(N - 1), 1.0
    for _ in range(k):
        w = x.copy()
        w[:-1] += gam * q
        w[1:] -= gam * q
        pn = np.clip(q + np.diff(w) / (4 * gam), -1, 1)
        tn = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
        p, q, t = pn, pn + (t - 1) / tn * (pn - p), tn
    w = x.copy()
    w[:-1] += gam * p
    w[1:] -= gam * p
    e, er = nrm(y - np.mean(x)), nrm(w - np.mean(x))
    if e > 10 * er + 1e-5 * (1 + mx(x)):
        raise Violation("TV.prox of a signal of %d samples after %d iterations is at distance %g of the minimiser (its mean); the accelerated method reaches %g" % (N, k, e, er))
    return c["kind"] if nrm(x - np.mean(x)) > 0 else ""


@gen.mk
def scase(draw):
    dims = draw_dims(draw, small=True)
    return {"x": draw_img(draw, dims), "s": draw(st.sampled_from([0.01, 0.1, 1.0, 10.0, 100.0])), "gam": gen.pos(draw), "k": draw(st.integers(2, 25)),
            "rtol": draw(st.sampled_from([1e-1, 3e-2, 1e-2, 1e-3, 1e-4, 1e-5]))}


@sub("stopping", scase, quick=150)
def _(c):
    """with a tolerance, the result is the iterate at which the relative change of the objective first falls below it"""
    x, dims = img(c["x"]), tuple(c["x"]["dims"])
    gam, k, r = c["gam"], c["k"], c["rtol"]
    Ds = dmats(dims)
    run = lambda n, t, s=c["s"]: out(pp.TV(dims, sigma=s, niter=n, rtol=t).prox(x.copy(), gam / s), x.shape, "TV.prox")
    y = run(k, r)
    sc = mx(x) + gam * 4 * len(dims)
    prev, stop = 0.0, k
    for j in range(k + 1):
        z = run(j, 0.0)
        F = 0.5 * nrm(x - z) ** 2 + gam * tv(Ds, z)
        if F < 1e-9:
            return ""
        rel = abs(F - prev) / F
        if abs(rel - r) < 1e-6 * r + 1e-12:
            return ""
        prev = F
        if rel < r:
            stop = j
            break
    if c["s"] != 1.0:
        same(run(k, r, 1.0), y, "TV.prox with rtol, sigma=%g and sigma=1 with the same product" % c["s"], sc, 1e-7)
    same(y, z, "TV.prox with rtol=%g and at most %d iterations, against the iterate %d at which the criterion is first met" % (r, k, stop), sc, 1e-7)
    return "%dd" % len(dims) if stop < k and mx(x - x[0]) > 0 else ""


@gen.mk
def tiny(draw):
    dims = draw_dims(draw, small=True)
    return {"x": draw_img(draw, dims), "s": draw(st.sampled_from([0.1, 1.0, 10.0])), "gam": draw(st.sampled_from([0.05, 0.3, 1.0, 2.0])),
            "k": draw(st.sampled_from([50, 200, 400])), "rtol": draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-8])), "u": draw(st.sampled_from([1e-6, 1e-7, 1e-9, 1e3, 1e5, 1e7]))}


@sub("units", tiny, quick=60)
def _(c):
    """the prox in other units of magnitude: as good as in the original units under the same stopping criterion, or as the full run"""
    x, dims = img(c["x"]), tuple(c["x"]["dims"])
    gam, k, u = c["gam"], c["k"], c["u"]
    run = lambda w, r, g: out(pp.TV(dims, sigma=c["s"], niter=k, rtol=r).prox(w, g / c["s"]), x.shape, "TV.prox")
    y = run(u * x, c["rtol"], u * gam) / u
    a, b = run(x.copy(), c["rtol"], gam), run(x.copy(), 0.0, gam)
    sc = mx(x) + gam * 4 * len(dims)
    if min(mx(y - a), mx(y - b)) > 1e-6 * sc:
        raise Violation("TV.prox(%s) of %g times the image with %g times the step: differs from the scaled result with (%g) and without (%g) stopping criterion" % (
            dims, u, u, mx(y - a), mx(y - b)))
    return "%dd" % len(dims) if mx(x - x[0]) > 0 else ""
