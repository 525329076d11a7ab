"""C08 vertical stacks and orthogonal compositions."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from vlib import gen, ops, trees
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, rdot, same, same_num, scalar

RULE = ("cases: lists of 1-5 blocks of any catalogued operator (sizes, consecutive or scattered restrictions), or a "
        "function composed with a (semi-)orthogonal operator; non-trivial: at least two blocks changed, or the "
        "composition moves the point")
ASSUMPTIONS = ["a block alone behaves as checked by C02-C04", "orthogonal operators built by QR of drawn seeds"]

BLOCKS = ["L1", "L2", "L2Op", "L21", "Huber", "HuberCircular", "Euclidean", "Quadratic", "Nuclear", "Box",
          "EuclideanBall", "L1Ball", "SimplexSet", "HalfSpace", "NuclearBall", "Hankel", "L0Ball", "L0", "Log", "Log1",
          "ETP", "Geman", "RelaxedMS"]
GRADB = ["L2", "L2Op", "Quadratic", "Euclidean"]


@gen.mk
def stack(draw):
    cplx = draw(st.integers(0, 3)) == 0
    ps = []
    for _ in range(draw(st.integers(1, 5))):
        o = ops.REG[draw(st.sampled_from(BLOCKS))]
        if cplx and not o.cplx:
            o = ops.REG["L1"]
        ps.append(o.spec(draw, draw(st.integers(1, 3)), cplx))
    sizes = [int(np.prod(ops.get(p).shape(p))) for p in ps]
    n = sum(sizes)
    c = {"ps": ps, "nn": sizes, "tau": gen.pos(draw), "x": gen.vec(draw, n, cplx, scale=False)}
    if draw(st.booleans()):
        c["perm"] = draw(st.permutations(list(range(n))))
    return c


def parts(c):
    o, i = [], 0
    order = c.get("perm", list(range(sum(c["nn"]))))
    for s in c["nn"]:
        o.append(np.array(order[i:i + s]))
        i += s
    return o


def build(c):
    fs = [ops.build(p) for p in c["ps"]]
    if "perm" in c:
        n = sum(c["nn"])
        return pp.VStack(fs, restr=[pylops.Restriction(n, ix, dtype="complex128" if isinstance(c["x"], dict) else "float64")
                                    for ix in parts(c)])
    return pp.VStack(fs, nn=list(c["nn"]))


@sub("prox", stack, quick=800)
def _(c):
    x, tau = gen.arr(c["x"]), c["tau"]
    x0 = x.copy()
    op = build(c)
    y = out(op.prox(x, tau), x.shape, "VStack.prox")
    if not np.array_equal(x, x0):
        raise Violation("VStack.prox modified its input")
    changed = 0
    for p, ix in zip(c["ps"], parts(c)):
        r = ops.build(p).prox(x0[ix].copy(), tau)
        same(y[ix], r, "block %s of VStack.prox" % p["op"], mx(x0), 1e-12)
        if hasattr(ops.get(p), "prox") and ops.get(p).convex:
            o = ops.get(p)
            rr = o.prox(p, x0[ix], tau)
            same(y[ix], rr, "block %s of VStack.prox" % p["op"],
                 mx(x0) + 1e7 * o.acc(p, x0[ix]) + 100 * mx(gen.arr(p["b"]) if isinstance(p.get("b"), (list, dict)) else 0)
                 + tau * p.get("alpha", 1.0) * mx(gen.arr(p["q"]) if "q" in p else 0) + mx(rr)
                 + (tau * mx(gen.arr(p["b"])) if p["op"] == "Quadratic" and "b" in p else 0), 1e-7)
        changed += nrm(r - x0[ix]) > 0
    d = out(op.proxdual(x.copy(), tau), x.shape, "VStack.proxdual")
    dd = x0 - tau * op.prox(x0 / tau, 1 / tau)
    same(d, dd, "VStack.proxdual", mx(x0) + mx(dd), 1e-9)
    return ("perm" if "perm" in c else "nn") + ("-cplx" if isinstance(c["x"], dict) else "") if changed >= min(2, len(c["ps"])) else ""


@gen.mk
def vstack(draw):
    ps = []
    for _ in range(draw(st.integers(1, 5))):
        o = ops.REG[draw(st.sampled_from([b for b in BLOCKS if not ops.REG[b].ind and b != "Log1"]))]
        ps.append(o.spec(draw, draw(st.integers(1, 3))))
    sizes = [int(np.prod(ops.get(p).shape(p))) for p in ps]
    n = sum(sizes)
    c = {"ps": ps, "nn": sizes, "x": gen.rvec(draw, n, scale=False)}
    if draw(st.booleans()):
        c["perm"] = draw(st.permutations(list(range(n))))
    return c


@sub("value", vstack, quick=400)
def _(c):
    x = gen.arr(c["x"])
    v = scalar(build(c)(x.copy()), "VStack value")
    ref = [ops.get(p).val(p, x[ix]) if p["op"] != "L0" else float(np.count_nonzero(x[ix])) for p, ix in zip(c["ps"], parts(c))]
    sc = sum(abs(r) + ops.vscale(p, x[ix]) for r, p, ix in zip(ref, c["ps"], parts(c)))
    same_num(v, sum(ref), "VStack value of %s" % [p["op"] for p in c["ps"]], sc, 1e-8)
    return "perm" if "perm" in c else "nn"


@gen.mk
def gstack(draw):
    ps = [ops.REG[draw(st.sampled_from(GRADB))].spec(draw, draw(st.integers(1, 3))) for _ in range(draw(st.integers(1, 4)))]
    sizes = [int(np.prod(ops.get(p).shape(p))) for p in ps]
    n = sum(sizes)
    c = {"ps": ps, "nn": sizes, "x": gen.rvec(draw, n, scale=False)}
    if draw(st.booleans()):
        c["perm"] = draw(st.permutations(list(range(n))))
    return c


@sub("grad", gstack, quick=400)
def _(c):
    x = gen.arr(c["x"])
    op = build(c)
    if not op.hasgrad:
        raise Violation("stack of differentiable functions declares no gradient")
    if any(p["op"] == "Euclidean" and mx(x[ix]) == 0 for p, ix in zip(c["ps"], parts(c))):
        return ""
    g = out(op.grad(x.copy()), x.shape, "VStack.grad")
    for p, ix in zip(c["ps"], parts(c)):
        r = ops.get(p).gradient(p, x[ix])
        bb = sum(mx(gen.arr(p[k])) for k in "bq" if k in p)
        same(g[ix], r, "block %s of VStack.grad" % p["op"],
             mx(r) + p.get("sigma", 1) * 100 * (mx(x) + bb) + p.get("alpha", 0) * bb + bb, 1e-9)
    return "perm" if "perm" in c else "nn"


@gen.mk
def badsize(draw):
    n1, n2 = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return {"nn": [n1, n2], "k": draw(st.sampled_from(["prox", "call", "grad"])), "d": draw(st.sampled_from([-1, 1, 3])),
            "restr": draw(st.booleans())}


@sub("wrong_size", badsize, quick=100)
def _(c):
    n = sum(c["nn"])
    fs = [pp.L2(sigma=1.0), pp.L2(sigma=2.0)]
    if c["restr"]:
        op = pp.VStack(fs, restr=[pylops.Restriction(n, np.arange(c["nn"][0])),
                                  pylops.Restriction(n, np.arange(c["nn"][0], n))])
    else:
        op = pp.VStack(fs, nn=c["nn"])
    x = np.ones(n + c["d"])
    try:
        {"prox": lambda: op.prox(x, 1.0), "call": lambda: op(x), "grad": lambda: op.grad(x)}[c["k"]]()
    except ValueError:
        pass
    else:
        raise Violation("VStack.%s accepted a vector of size %d instead of %d" % (c["k"], x.size, n))
    try:
        pp.VStack(fs)
    except ValueError:
        return c["k"]
    raise Violation("VStack without nn and restr was accepted")


INNER = ["L1", "L2", "L2Op", "L21", "Huber", "HuberCircular", "Euclidean", "Quadratic", "Nuclear", "Box",
         "EuclideanBall", "HalfSpace", "Hankel"]


@gen.mk
def orth(draw):
    cplx = draw(st.integers(0, 3)) == 0
    o = ops.REG[draw(st.sampled_from(INNER))]
    if cplx and not o.cplx:
        o = ops.REG["L1"]
    p = o.spec(draw, draw(st.integers(1, 3)), cplx)
    if p["op"] == "Nuclear" and isinstance(p["sigma"], list):
        p["sigma"] = p["sigma"][0]
    m = int(np.prod(o.shape(p)))
    partial = draw(st.booleans())
    n = m + (draw(st.integers(0, 3)) if partial else 0)
    c = {"p": p, "partial": partial, "n": n, "seed": draw(gen.seeds()), "tau": gen.pos(draw),
         "alpha": draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 9.0, 0.01, 0.04, 100.0])), "x": gen.vec(draw, n, cplx, scale=False),
         "kind": draw(st.sampled_from(["qr", "qr", "fft" if cplx else "haar"]))}
    if draw(st.integers(0, 2)) > 0:
        c["b"] = gen.vec(draw, m, cplx, scale=False)
    return c


def Qof(c):
    """matrix with Q Q^H = alpha I (alpha ignored and equal to 1 for full orthogonality)"""
    m, n = int(np.prod(ops.get(c["p"]).shape(c["p"]))), c["n"]
    g = gen.rng(c["seed"])
    if c["kind"] == "fft":
        M = np.fft.fft(np.eye(n), norm="ortho")
    elif c["kind"] == "haar" and n & (n - 1) == 0 and n > 1:
        import scipy.linalg
        M = scipy.linalg.hadamard(n) / np.sqrt(n)
    else:
        Z = g.standard_normal((n, n))
        if c["p"]["cplx"]:
            Z = Z + 1j * g.standard_normal((n, n))
        M = np.linalg.qr(Z)[0]
    M = M[g.permutation(n)[:m]]
    return M * np.sqrt(c["alpha"]) if c["partial"] else M


@sub("orthogonal", orth, quick=1000)
def _(c):
    p, tau = c["p"], c["tau"]
    o = ops.get(p)
    x = gen.arr(c["x"])
    Q = Qof(c)
    b = gen.arr(c["b"]) if "b" in c else 0.0
    op = pp.Orthogonal(ops.build(p), pylops.MatrixMult(Q, dtype=Q.dtype), partial=c["partial"],
                       b=gen.arr(c["b"]) if "b" in c else None, alpha=c["alpha"] if c["partial"] else 7.0)
    al = c["alpha"] if c["partial"] else 1.0
    y = out(op.prox(x.copy(), tau), x.shape, "Orthogonal.prox")
    z0 = Q @ x + b
    z = o.prox(p, z0, tau * al)
    ref = x + Q.conj().T @ (z - z0) / al
    sc = mx(x) + mx(z) / np.sqrt(al) + mx(z0) / np.sqrt(al) + sum(
        mx(gen.arr(p[k])) * (tau * al * p.get("alpha", 1.0) if k == "q" or p["op"] == "Quadratic" else 1.0) for k in "bqg" if k in p and isinstance(p[k], (list, dict))) / np.sqrt(al)
    same(y, ref, "Orthogonal(%s, partial=%s).prox(tau=%g)" % (p["op"], c["partial"], tau), sc, 1e-7)
    # without the composition rule: no perturbed point is better
    def obj(w):
        v = Q @ w + b
        if o.ind:
            return (0.0 if o.viol(p, v) <= 1e-8 * (1 + mx(v)) else np.inf) + nrm(w - x) ** 2 / (2 * tau), 0.0
        r = o.val(p, v)
        return r + nrm(w - x) ** 2 / (2 * tau), abs(r) + ops.vscale(p, v)
    f, s = obj(y)
    tol = 1e-9 * (abs(f) + s + nrm(x) ** 2 / tau + sc * sc / tau) + 1e-280
    if not o.ind:
        tol += 1e-12 * abs(o.val(p, z0))     # rounding of a zero entry of a steep function
    if not np.isfinite(f):
        raise Violation("Orthogonal(%s).prox leaves the domain" % p["op"])
    D = [x - y, -y, ref - y] + [Q[i].conj() for i in range(Q.shape[0])]
    if not o.ind:
        for d in D:
            if nrm(d) == 0:
                continue
            for h in (1.0, 1e-2, 1e-4):
                for sg in (1, -1):
                    if obj(y + sg * h * d)[0] < f - tol:
                        raise Violation("Orthogonal(%s).prox is not a minimiser: %.17g against %.17g" % (
                            p["op"], f, obj(y + sg * h * d)[0]))
        v = scalar(op(x.copy()), "Orthogonal value")
        same_num(v, o.val(p, z0), "Orthogonal(%s) value" % p["op"], ops.vscale(p, z0) + 1e-6 * mx(z0), 1e-8)
    lab = ("partial" if c["partial"] else "full") + ("-b" if "b" in c else "") + ("-cplx" if p["cplx"] else "")
    return lab if mx(ref - x) > 0 else ""


@gen.mk
def nest2(draw):
    n = draw(st.integers(2, 6))
    t = trees.draw_tree(draw, n, draw(st.integers(1, 3)), h2=False)
    return {"t": t, "tau": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])), "x": gen.rvec(draw, n, scale=False)}


@sub("nested", nest2, quick=500)
def _(c):
    t, tau = c["t"], c["tau"]
    x = gen.arr(c["x"])
    y = out(trees.build(t).prox(x.copy(), tau), x.shape, "prox", cplx=False)
    ref = trees.prox(t, x, tau)
    dd = max([mx(gen.arr(p[k])) * p.get("alpha", 1.0) for p in trees.leaves(t) for k in "bqg" if k in p and isinstance(p[k], list)] + [0.0])
    same(y, ref, "prox of %s" % trees.show(t), trees.affine_scale(t, x) + mx(ref) + 100 * dd, 1e-7)
    return t["t"] if mx(ref - x) > 0 else ""
