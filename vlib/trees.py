"""Expression trees of the operator algebra with an independent calculus-rule reference.

Node kinds: leaf, add (f + v), sub (f - v), mul (s*f), pre (f(a x + b)), vstack, perm (Orthogonal
with a signed permutation), hadamard/part (partially orthogonal), H2 (adjoint of the adjoint)."""
import numpy as np
import pylops
import pyproximal as pp
from hypothesis import strategies as st

from . import gen, ops
from .gen import arr

LEAVES_FUN = ["L1", "L2", "L2Op", "L21", "Huber", "HuberCircular", "Euclidean", "Quadratic"]
LEAVES_IND = ["Box", "EuclideanBall", "HalfSpace"]
LEAVES_GRAD = ["L2", "L2Op", "Quadratic", "Euclidean"]
MSTYLE = (20, 4)


def draw_tree(draw, n, depth, ind=True, grad=False, struct=True, h2=True):
    if depth <= 0:
        pool = LEAVES_GRAD if grad else LEAVES_FUN + (LEAVES_IND if ind else [])
        name = draw(st.sampled_from(pool))
        o = ops.REG[name]
        p = o.spec(draw, n)
        if name == "L21":
            nd = draw(st.sampled_from([d for d in (1, 2, 3) if n % d == 0]))
            p["nd"], p["n"] = nd, n // nd
        return {"t": "leaf", "p": p, "n": n}
    kinds = ["add", "sub", "mul", "pre", "leaf"]
    if struct and n >= 2:
        kinds += ["vstack", "vstack"]
    if struct and not grad:
        kinds += ["perm", "part"]
    if h2 and not grad:
        kinds += ["H2"]
    k = draw(st.sampled_from(kinds))
    kw = dict(ind=ind, grad=grad, struct=struct, h2=h2)
    if k == "leaf":
        return draw_tree(draw, n, 0, **kw)
    if k in ("add", "sub"):
        return {"t": k, "v": gen.rvec(draw, n, MSTYLE, scale=False), "f": draw_tree(draw, n, depth - 1, **kw), "n": n}
    if k == "mul":
        s = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3, 2, 1, 10.0]))
        return {"t": k, "s": s, "f": draw_tree(draw, n, depth - 1, **kw), "n": n}
    if k == "pre":
        a = draw(st.sampled_from([-2.0, -1.0, -0.5, 0.5, 1.0, 2.0, 3.0]))
        b = gen.num(draw, style=MSTYLE) if draw(st.booleans()) else gen.rvec(draw, n, MSTYLE, scale=False)
        return {"t": k, "a": a, "b": b, "f": draw_tree(draw, n, depth - 1, **kw), "n": n}
    if k == "vstack":
        parts = []
        left = n
        while left > 0:
            s = draw(st.integers(1, left))
            parts.append(s)
            left -= s
        r = {"t": k, "nn": parts, "fs": [draw_tree(draw, s, depth - 1, **kw) for s in parts], "n": n}
        if draw(st.booleans()):
            r["perm"] = draw(st.permutations(list(range(n))))
        return r
    if k == "perm":
        r = {"t": k, "perm": draw(st.permutations(list(range(n)))),
             "sg": [1 if draw(st.booleans()) else -1 for _ in range(n)],
             "partial": draw(st.booleans()), "f": draw_tree(draw, n, depth - 1, **kw), "n": n}
        if draw(st.booleans()):
            r["b"] = gen.rvec(draw, n, MSTYLE, scale=False)
        return r
    if k == "part":
        m = draw(st.integers(1, n))
        r = {"t": k, "m": m, "idx": draw(st.permutations(list(range(n))))[:m],
             "c": draw(st.sampled_from([0.5, 1.0, -2.0, 3.0])), "f": draw_tree(draw, m, depth - 1, **kw), "n": n}
        if draw(st.booleans()):
            r["b"] = gen.rvec(draw, m, MSTYLE, scale=False)
        return r
    return {"t": "H2", "f": draw_tree(draw, n, depth - 1, **kw), "n": n}


def Q(t):
    n = t["n"]
    if t["t"] == "perm":
        M = np.zeros((n, n))
        for i, (j, s) in enumerate(zip(t["perm"], t["sg"])):
            M[i, j] = s
        return M
    M = np.zeros((t["m"], n))
    for i, j in enumerate(t["idx"]):
        M[i, j] = t["c"]
    return M


def build(t):
    k = t["t"]
    if k == "leaf":
        return ops.build(t["p"])
    if k == "add":
        return build(t["f"]) + arr(t["v"])
    if k == "sub":
        return build(t["f"]) - arr(t["v"])
    if k == "mul":
        return t["s"] * build(t["f"])
    if k == "pre":
        return build(t["f"]).precomposition(t["a"], t["b"] if isinstance(t["b"], float) else arr(t["b"]))
    if k == "vstack":
        fs = [build(f) for f in t["fs"]]
        if "perm" in t:
            r, i = [], 0
            for s in t["nn"]:
                r.append(pylops.Restriction(t["n"], np.array(t["perm"][i:i + s])))
                i += s
            return pp.VStack(fs, restr=r)
        return pp.VStack(fs, nn=list(t["nn"]))
    if k == "perm":
        return pp.Orthogonal(build(t["f"]), pylops.MatrixMult(Q(t)), partial=t["partial"],
                             b=arr(t["b"]) if "b" in t else None, alpha=1.0)
    if k == "part":
        return pp.Orthogonal(build(t["f"]), pylops.MatrixMult(Q(t)), partial=True,
                             b=arr(t["b"]) if "b" in t else None, alpha=t["c"] ** 2)
    return build(t["f"]).H.H


def idx(t):
    out, i = [], 0
    order = t.get("perm", list(range(t["n"])))
    for s in t["nn"]:
        out.append(np.array(order[i:i + s]))
        i += s
    return out


def _b(t):
    if "b" not in t:
        return 0.0
    return t["b"] if isinstance(t["b"], (int, float)) else arr(t["b"])


def val(t, x):
    """(value, magnitude of the summed terms); indicators contribute their violation as +inf"""
    k = t["t"]
    if k == "leaf":
        p = t["p"]
        o = ops.get(p)
        if o.ind:
            v = o.viol(p, x)
            return (0.0, 0.0) if v <= 1e-9 * (1 + np.max(np.abs(x))) else (np.inf, 0.0)
        v = o.val(p, x)
        return v, max(abs(v), ops.vscale(p, x))
    if k in ("add", "sub"):
        v, s = val(t["f"], x)
        w = arr(t["v"])
        d = float(np.sum(w * x))
        return v + (d if k == "add" else -d), s + float(np.sum(np.abs(w * x)))
    if k == "mul":
        v, s = val(t["f"], x)
        return t["s"] * v, t["s"] * s
    if k == "pre":
        return val(t["f"], t["a"] * x + _b(t))
    if k == "vstack":
        r = [val(f, x[i]) for f, i in zip(t["fs"], idx(t))]
        return sum(a for a, _ in r), sum(b for _, b in r)
    if k in ("perm", "part"):
        return val(t["f"], Q(t) @ x + _b(t))
    return val(t["f"], x)


def prox(t, x, tau):
    """minimiser of val(y) + |y-x|^2/(2 tau), from completing the square at every node"""
    k = t["t"]
    if k == "leaf":
        return ops.get(t["p"]).prox(t["p"], x, tau)
    if k in ("add", "sub"):
        s = 1 if k == "add" else -1
        return prox(t["f"], x - s * tau * arr(t["v"]), tau)
    if k == "mul":
        return prox(t["f"], x, tau * t["s"])
    if k == "pre":
        # y = (z - b)/a: |y - x|^2 = |z - (a x + b)|^2 / a^2
        z = prox(t["f"], t["a"] * x + _b(t), tau * t["a"] ** 2)
        return (z - _b(t)) / t["a"]
    if k == "vstack":
        y = np.zeros_like(x)
        for f, i in zip(t["fs"], idx(t)):
            y[i] = prox(f, x[i], tau)
        return y
    if k in ("perm", "part"):
        # y = x + Q^T w: minimise f(Q x + b + c^2 w) + c^2 |w|^2 / (2 tau)
        M = Q(t)
        c2 = float(M[0] @ M[0])
        z0 = M @ x + _b(t)
        z = prox(t["f"], z0, tau * c2)
        return x + M.T @ ((z - z0) / c2)
    return prox(t["f"], x, tau)


def grad(t, x):
    k = t["t"]
    if k == "leaf":
        return ops.get(t["p"]).gradient(t["p"], x)
    if k in ("add", "sub"):
        return grad(t["f"], x) + (1 if k == "add" else -1) * arr(t["v"])
    if k == "mul":
        return t["s"] * grad(t["f"], x)
    if k == "pre":
        return t["a"] * grad(t["f"], t["a"] * x + _b(t))
    if k == "vstack":
        g = np.zeros_like(x)
        for f, i in zip(t["fs"], idx(t)):
            g[i] = grad(f, x[i])
        return g
    raise AssertionError(k)


def leaves(t):
    if t["t"] == "leaf":
        return [t["p"]]
    if t["t"] == "vstack":
        return [p for f in t["fs"] for p in leaves(f)]
    return leaves(t["f"])


def kind(t):
    return t["t"]


def depth(t):
    if t["t"] == "leaf":
        return 0
    if t["t"] == "vstack":
        return 1 + max(depth(f) for f in t["fs"])
    return 1 + depth(t["f"])


def show(t):
    k = t["t"]
    if k == "leaf":
        return t["p"]["op"]
    if k == "vstack":
        return "vstack(%s)" % ", ".join(show(f) for f in t["fs"])
    return "%s(%s)" % (k, show(t["f"]))


def affine_scale(t, x):
    """largest magnitude of the arguments met inside of the tree (for tolerances)"""
    k = t["t"]
    m = float(np.max(np.abs(x), initial=0.0))
    if k == "leaf":
        return m
    if k in ("add", "sub"):
        return max(m, affine_scale(t["f"], x), float(np.max(np.abs(arr(t["v"])))))
    if k == "mul" or k == "H2":
        return max(m, affine_scale(t["f"], x))
    if k == "pre":
        return max(m, affine_scale(t["f"], t["a"] * x + _b(t)))
    if k == "vstack":
        return max([m] + [affine_scale(f, x[i]) for f, i in zip(t["fs"], idx(t))])
    return max(m, affine_scale(t["f"], Q(t) @ x + _b(t)))


def _mx(v):
    return float(np.max(np.abs(v), initial=0.0))


def dscale(t):
    s = 0.0
    for p in leaves(t):
        for k in ("b", "q", "g", "center", "lo", "hi"):
            if k in p:
                v = arr(p[k]) if not isinstance(p[k], (int, float)) else np.array([p[k]])
                s = max(s, _mx(v) * (p.get("alpha", 1.0) if k == "q" else 1.0))
    return s


def gradscale(t, x):
    """magnitudes of the terms summed in the gradient"""
    k = t["t"]
    if k == "leaf":
        p = t["p"]
        s = p.get("sigma", 1.0) * (_mx(x) + dscale(t)) + p.get("alpha", 0.0) * dscale(t)
        if p["op"] == "L2Op":
            A = np.abs(ops.get(p).A(p))
            s += p["sigma"] * _mx(A.T @ (A @ np.abs(x) + np.abs(arr(p["b"]))))
        if p["op"] == "Quadratic" and "R" in p:
            R = np.abs(arr(p["R"], (p["r"], p["n"])))
            s += _mx(R.T @ (R @ np.abs(x)))
        return s
    if k in ("add", "sub"):
        return gradscale(t["f"], x) + _mx(arr(t["v"]))
    if k == "mul":
        return t["s"] * gradscale(t["f"], x)
    if k == "pre":
        return abs(t["a"]) * gradscale(t["f"], abs(t["a"]) * np.abs(x) + np.abs(_b(t)))
    if k == "vstack":
        return max(gradscale(f, x[i]) for f, i in zip(t["fs"], idx(t)))
    raise AssertionError(k)
