"""C11 gradients."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from vlib import gen, ops, trees
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out, rdot, same, same_num, scalar

RULE = ("cases: differentiable operators with all data/weight/shift/dot terms, compositions and stacks of them, operators "
        "without gradient (Moreau envelope), points and directions; non-trivial: the gradient is non-zero")
ASSUMPTIONS = ["the derivative of quadratics is the exact central difference of the value with step one; for the "
               "Euclidean norm a Richardson extrapolated difference away from zero",
               "gradient of complex arguments: d/dt f(x+t d) = Re <grad, d> for all complex directions",
               "L2 with qgrad=False documents that the dot product term is left out of the gradient"]


def cd(f, x, d, h=1.0):
    """central difference (exact for quadratics)"""
    return (f(x + h * d) - f(x - h * d)) / (2 * h)


def directions(x, seed):
    g = gen.rng(seed)
    n = x.size
    ds = [np.eye(n)[i] for i in range(min(n, 6))]
    ds.append(g.standard_normal(n))
    if np.iscomplexobj(x):
        ds += [1j * d for d in ds]
    return ds


@gen.mk
def l2(draw):
    cplx = draw(st.integers(0, 2)) == 0
    n = gen.dim(draw, 6)
    p = ops.REG[draw(st.sampled_from(["L2", "L2Op", "L2Op"]))].spec(draw, n, cplx)
    c = {"p": p, "x": gen.vec(draw, n, cplx, scale=False), "qgrad": draw(st.booleans()), "d": draw(gen.seeds()),
         "solver": draw(st.sampled_from([None, "numpy", "scipy", "factorize", "free"])), "warm": draw(st.booleans())}
    if "q" not in p and draw(st.booleans()):
        p["q"] = gen.vec(draw, n, cplx, scale=False)
        p["alpha"] = gen.pos(draw)
    return c


def build_l2(c):
    p = c["p"]
    kw = {}
    if p["op"] == "L2Op":
        A = gen.arr(p["A"], (p["m"], p["n"]))
        if c["solver"] == "free":
            kw["Op"] = pylops.FunctionOperator(lambda v: A @ v, lambda v: A.conj().T @ v, p["m"], p["n"], dtype=A.dtype)
        else:
            kw["Op"] = pylops.MatrixMult(A, dtype=A.dtype)
            kw["densesolver"] = c["solver"]
    if "b" in p:
        kw["b"] = gen.arr(p["b"])
    if "q" in p:
        kw["q"] = gen.arr(p["q"])
        kw["alpha"] = p["alpha"]
    return pp.L2(sigma=p["sigma"], qgrad=c["qgrad"], warm=c["warm"], **kw)


@sub("l2", l2, quick=900)
def _(c):
    p = c["p"]
    op = build_l2(c)
    if not op.hasgrad:
        raise Violation("L2 does not declare a gradient")
    x = gen.arr(c["x"])
    g = out(op.grad(x.copy()), x.shape, "L2.grad", cplx=None if np.iscomplexobj(x) or gen.isc(p.get("A")) or gen.isc(p.get("b")) else False)
    q = {k: v for k, v in p.items() if k not in ("q",)} if not c["qgrad"] else p
    ref = ops.get(p).gradient(q, x)
    A = np.abs(gen.arr(p["A"], (p["m"], p["n"]))) if "A" in p else np.eye(p["n"])
    b = np.abs(gen.arr(p["b"])) if "b" in p else 0.0
    sc = p["sigma"] * mx(A.T @ (A @ np.abs(x) + b)) + (p["alpha"] * mx(gen.arr(p["q"])) if "q" in p else 0)
    same(g, ref, "L2.grad(%s)" % c["solver"], sc, 1e-9)
    if c["qgrad"] or "q" not in p:
        for d in directions(x, c["d"]):
            v = cd(lambda z: scalar(op(z), "L2 value"), x, d)
            s = ops.vscale(p, x + d) + ops.vscale(p, x - d)
            same_num(v, rdot(g, d), "derivative of L2 along %s" % d, s, 1e-9)
    # interleaved prox calls leave the gradient unchanged
    op.prox(x.copy(), 0.7)
    same(op.grad(x.copy()), g, "L2.grad after prox", sc, 1e-12)
    return ("Op" if "A" in p else "plain") + ("-q" if "q" in p else "") + ("-cplx" if np.iscomplexobj(x) else "") if mx(ref) > 0 else ""


@gen.mk
def quad(draw):
    n = gen.dim(draw, 6)
    c = {"p": ops.REG["Quadratic"].spec(draw, n), "x": gen.rvec(draw, n, scale=False), "d": draw(gen.seeds())}
    return c


@sub("quadratic", quad, quick=300)
def _(c):
    p, x = c["p"], gen.arr(c["x"])
    op = ops.build(p)
    g = out(op.grad(x.copy()), x.shape, "Quadratic.grad", cplx=False)
    for d in directions(x, c["d"]):
        v = cd(lambda z: scalar(op(z), "Quadratic value"), x, d)
        same_num(v, rdot(g, d), "derivative of Quadratic", ops.vscale(p, x + d) + ops.vscale(p, x - d), 1e-9)
    return "op" if mx(g) > 0 else ""


@gen.mk
def euc(draw):
    n = gen.dim(draw, 6)
    cplx = draw(st.booleans())
    return {"s": gen.pos(draw), "x": gen.vec(draw, n, cplx), "d": draw(gen.seeds())}


@sub("euclidean", euc, quick=300)
def _(c):
    x = gen.arr(c["x"])
    r = nrm(x)
    if r < 1e-6:
        raise Skip()
    op = pp.Euclidean(sigma=c["s"])
    g = out(op.grad(x.copy()), x.shape, "Euclidean.grad")
    same(g, c["s"] * x / r, "Euclidean.grad", 0, 1e-10)
    for d in directions(x, c["d"]):
        h = 1e-2 * r / nrm(d)
        f = lambda z: scalar(op(z), "Euclidean value")
        v = (4 * cd(f, x, d, h / 2) - cd(f, x, d, h)) / 3
        same_num(v, rdot(g, d), "derivative of the Euclidean norm", c["s"] * nrm(d), 1e-6)
    return "cplx" if np.iscomplexobj(x) else "real"


@gen.mk
def conv(draw):
    dims = [draw(st.integers(1, 5)) for _ in range(draw(st.integers(1, 3)))]
    c = {"dims": dims, "flat": len(dims) == 1 and draw(st.booleans()), "cplx": draw(st.integers(0, 3)) == 0, "sigma": gen.pos(draw),
         "d": draw(gen.seeds())}
    dr = draw(st.integers(0, len(dims) - 1))
    c["dir"] = draw(st.sampled_from([dr, dr - len(dims)]))
    if dr == len(dims) - 1 and draw(st.booleans()):
        c["dir"] = None
    nh = draw(st.integers(1, 4))
    n = dims[dr]
    c["nh"] = nh
    c["nfft"] = draw(st.integers(n + nh - 1, n + nh + 4)) if draw(st.booleans()) else 16
    c["nb"] = draw(st.integers(1, n + nh - 1))
    N = int(np.prod(dims))
    c["h"] = gen.vec(draw, nh, c["cplx"], style=(3, 1), scale=False)
    c["x"] = gen.vec(draw, N, c["cplx"], scale=False)
    c["b"] = gen.vec(draw, N // n * c["nb"], c["cplx"], scale=False)
    return c


@sub("convolve", conv, quick=400)
def _(c):
    dims = c["dims"]
    dr = (len(dims) - 1 if c["dir"] is None else c["dir"]) % len(dims)
    bd = list(dims)
    bd[dr] = c["nb"]
    h, b, x = gen.arr(c["h"]), gen.arr(c["b"], bd), gen.arr(c["x"])
    if c["flat"]:
        op = pp.L2Convolve(h, b.ravel(), nfft=c["nfft"], sigma=c["sigma"])
    else:
        op = pp.L2Convolve(h, b, nfft=c["nfft"], sigma=c["sigma"], dims=tuple(dims), dir=c["dir"])
    if not op.hasgrad:
        raise Violation("L2Convolve does not declare a gradient")

    def f(z):
        Z = np.moveaxis(z.reshape(dims), dr, -1).reshape(-1, dims[dr])
        B = np.moveaxis(b, dr, -1).reshape(-1, c["nb"])
        v = 0.0
        for zr, br in zip(Z, B):
            r = np.convolve(h, zr)
            r[: c["nb"]] -= br
            v += 0.5 * c["sigma"] * float(np.sum(np.abs(r) ** 2))
        return v
    v0 = scalar(op(x.copy()), "L2Convolve value")
    sc = c["sigma"] * (np.sum(np.abs(h)) * (mx(x) + 1) + mx(b)) ** 2 * x.size
    same_num(v0, f(x), "L2Convolve value", sc, 1e-9)
    g = out(op.grad(x.copy()), x.shape, "L2Convolve.grad", cplx=c["cplx"] and None)
    for d in directions(x, c["d"]):
        same_num(cd(f, x, d), rdot(g, d), "derivative of L2Convolve along %s" % d, 10 * sc, 1e-9)
    return ("cplx" if c["cplx"] else "real") + "%dd" % len(dims) if mx(g) > 0 else ""


@gen.mk
def tree(draw):
    n = gen.dim(draw, 6)
    return {"t": trees.draw_tree(draw, n, draw(st.integers(1, 4)), ind=False, grad=True),
            "x": gen.rvec(draw, n, scale=False), "d": draw(gen.seeds())}


@sub("algebra", tree, quick=500)
def _(c):
    t, x = c["t"], gen.arr(c["x"])
    op = trees.build(t)
    with np.errstate(all="ignore"):
        ref = trees.grad(t, x)
    if not np.all(np.isfinite(ref)):
        return ""
    g = out(op.grad(x.copy()), x.shape, "grad", cplx=False)
    quadratic = all(p["op"] != "Euclidean" for p in trees.leaves(t))
    if not quadratic:
        # distance of the inner arguments to the kink is not tracked: compare with the chain rule instead
        same(g, ref, "grad of %s" % trees.show(t), trees.gradscale(t, x), 1e-9)
        return "euclidean" if mx(ref) > 0 else ""
    # the value of stacks ignores terms returned as vectors: differentiate the value of the operator itself
    for d in directions(x, c["d"]):
        f = lambda z: scalar(op(z), "value")
        (_, s1), (_, s2) = trees.val(t, x + d), trees.val(t, x - d)
        same_num(cd(f, x, d), rdot(g, d), "derivative of %s along %s" % (trees.show(t), d), s1 + s2, 1e-8)
    return t["t"] + str(min(3, trees.depth(t))) if mx(ref) > 0 else ""


MOREAU = ["L1", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Nuclear", "Box", "EuclideanBall", "L1Ball", "SimplexSet",
          "HalfSpace", "NuclearBall", "Hankel"]


@gen.mk
def moreau(draw):
    o = ops.REG[draw(st.sampled_from(MOREAU))]
    n = gen.dim(draw, 5)
    cplx = draw(st.integers(0, 3)) == 0
    p = o.spec(draw, n, cplx)
    s = gen.pos(draw)
    return {"p": p, "s": s, "default": draw(st.booleans()), "x": o.x(draw, p, 1.0, scale=False), "d": draw(gen.seeds())}


@sub("moreau", moreau, quick=800)
def _(c):
    p = c["p"]
    o = ops.get(p)
    x = o.arr(p, c["x"])
    op = ops.build(p)
    if op.hasgrad:
        raise Violation("%s declares a gradient" % p["op"])
    s = 1.0 if c["default"] else c["s"]
    if not c["default"]:
        op.sigmame = s
    elif op.sigmame != 1.0:
        raise Violation("default envelope parameter is %r" % op.sigmame)
    g = out(op.grad(x.copy()), x.shape, "%s.grad" % p["op"])
    y = o.prox(p, x, s)
    acc = o.acc(p, x) / s
    if nrm(g - (x - y) / s) > 1e-8 * (mx(x) + mx(y)) / s * np.sqrt(x.size) + 2 * acc * np.sqrt(x.size):
        raise Violation("%s.grad is not (x - prox)/%g:\n got      %s\n expected %s" % (p["op"], s, g, (x - y) / s))
    # derivative of the envelope, by differencing the reference envelope value
    if acc == 0 and o.convex and not (p["op"] == "Nuclear" and isinstance(p["sigma"], list)) and np.linalg.norm(g) > 1e-9:
        def env(z):
            w = o.prox(p, z, s)
            return (0.0 if o.ind else o.val(p, w)) + nrm(w - z) ** 2 / (2 * s)
        d = g / nrm(g)
        h = 1e-4 * min(1.0, s) * max(mx(x), 1e-3)
        v = cd(env, x, d, h)
        # the envelope has a 1/s Lipschitz gradient
        if abs(v - rdot(g, d)) > h / s + 1e-6 * nrm(g) + 1e-12 * (env(x) + abs(s)) / h:
            raise Violation("%s.grad: directional derivative of the envelope %g, from grad %g" % (p["op"], v, rdot(g, d)))
    return p["op"] if mx(g) > 0 else ""
