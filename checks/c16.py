"""C16 purity and repeatability of operators and projections."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from pyproximal import projection as pj
from vlib import gen, ops, trees, zoo
from vlib.core import Violation, sub
from vlib.util import mx, nrm

RULE = ("cases: one to three operators of any kind (base, composed, stacked, iterative, scheduled) and a history of value, prox, dual, "
        "gradient, adjoint and rejected calls on contiguous, strided and read-only inputs; non-trivial: at least three calls, "
        "one of them repeated after other calls, on non-zero inputs")
ASSUMPTIONS = ["snapshots are taken of every array handed to a constructor or method, compared bit by bit",
               "repeated calls must agree to 1e-10 (1e-6 for warm-started iterative operators with tight tolerances)",
               "operators with declared call-count schedules are compared in C14 only; their inputs are checked here"]


def snap(rec):
    return [(a, a.copy(), a.shape, a.strides, a.dtype) for a in rec]


def unchanged(sn, what):
    for a, b, sh, stri, dt in sn:
        if a.shape != sh or a.strides != stri or a.dtype != dt or not np.array_equal(a, b, equal_nan=True):
            raise Violation("%s changed an array it was given: before %s (shape %s), after %s (shape %s)" % (what, b, sh, a, a.shape))


def present(a, form):
    """the same values as a different kind of array"""
    if form == "strided":
        big = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7.5, dtype=a.dtype)
        v = big[..., ::2]
        v[...] = a
        return v, big
    if form == "readonly":
        v = a.copy()
        v.setflags(write=False)
        return v, v
    if form in ("fortran", "turned") and a.ndim > 1:
        v = np.asfortranarray(a) if form == "fortran" else np.swapaxes(np.swapaxes(a, 0, -1).copy(), 0, -1)
        return v, v
    if form == "window":
        big = np.full(a.size + 6, 7.5, dtype=a.dtype)
        v = big[3:3 + a.size].reshape(a.shape)
        v[...] = a
        return v, big
    v = a.copy()
    return v, v


def do(op, what, x, tau):
    if what == "value":
        return op(x)
    if what == "prox":
        return op.prox(x, tau)
    if what == "prox_kw":
        return op.prox(x, tau=tau)
    if what == "proxdual":
        return op.proxdual(x, tau)
    if what == "H.prox":
        return op.H.prox(x, tau)
    if what == "grad":
        return op.grad(x)
    if what == "elementwise":
        return op.elementwise(x)
    assert what == "bad"
    try:
        op.prox(x, -1.0)
    except ValueError:
        return np.zeros(1)
    raise Violation("prox accepts a negative step")


CALLS = ["value", "prox", "prox", "prox", "prox_kw", "proxdual", "H.prox", "grad", "elementwise", "bad"]


def usable(z, what):
    """calls in the domain of the operator"""
    if what == "value" and z["z"] in ("Chain", "Adjoint"):
        return False
    if what == "grad":
        # the envelope gradient of these needs steps outside of the domain of the operator
        if z["z"] in ("Chain",) or (z["z"] == "reg" and z["p"]["op"] == "SCAD"):
            return False
    return True


@gen.mk
def hist(draw):
    objs = []
    for i in range(draw(st.integers(1, 3))):
        if objs and draw(st.integers(0, 3)) == 0:
            objs.append(objs[0])           # an equal operator, built independently
        else:
            objs.append(zoo.draw(draw))
    taus = [gen.pos(draw) for _ in range(2)]
    calls, pool = [], {}
    for _ in range(draw(st.integers(3, 9))):
        i = draw(st.integers(0, len(objs) - 1))
        key = str(objs[i]["shape"])
        if calls and draw(st.integers(0, 2)) == 0:
            k = dict(draw(st.sampled_from(calls)))     # repeat an earlier call
            k["form"] = draw(st.sampled_from(["plain", "plain", "strided", "readonly", "window"]))
            calls.append(k)
            continue
        calls.append({"i": i, "what": draw(st.sampled_from(CALLS)), "x": zoo.x(draw, objs[i], taus[0]), "tau": draw(st.sampled_from(taus)),
                      "form": draw(st.sampled_from(["plain", "plain", "strided", "readonly", "window"]))})
    return {"objs": objs, "calls": calls}


def unsolvable(z, x, tau):
    """SciPy's lsqr stops at once, wherever it started, when the right-hand side is exactly zero"""
    if z["z"] != "L2Iter" or z["solver"] != "legacy":
        return False
    A = gen.arr(z["A"], (z["m"], z["n"]))
    v = z["sigma"] * (A.T @ gen.arr(z["b"]))
    return any(nrm(x + t * v) <= 1e-10 * (nrm(x) + t * z["sigma"] * nrm(A) * nrm(gen.arr(z["b"]))) for t in (tau, 1.0))


def maxtau(z):
    p = z.get("p")
    if p and hasattr(ops.get(p), "maxtau"):
        return ops.get(p).maxtau(p)
    return np.inf


@sub("histories", hist, quick=900)
def _(c):
    objs = c["objs"]
    built, sn = [], []
    for z in objs:
        with zoo.track() as rec:
            op = zoo.build(z)
        built.append(op)
        sn.append(snap(rec))
        unchanged(sn[-1], "building " + zoo.name(z))
    done, rep, nz = {}, False, False
    for k, call in enumerate(c["calls"]):
        i, what = call["i"], call["what"]
        z, op = objs[i], built[i]
        nm = zoo.name(z)
        if not usable(z, what) or (what == "elementwise" and not hasattr(op, "elementwise")):
            continue
        tau = min(call["tau"], maxtau(z))
        if what in ("proxdual", "H.prox") and maxtau(z) < np.inf:
            continue
        x0 = gen.arr(call["x"], z["shape"])
        x, owner = present(x0, call["form"])
        s = snap([x, owner])
        with np.errstate(all="ignore"):
            try:
                y = do(op, what, x, tau)
            except NotImplementedError:
                continue
        unchanged(s, "%s.%s" % (nm, what))
        for j, zz in enumerate(objs):
            unchanged(sn[j], "%s.%s (array given to the constructor of %s)" % (nm, what, zoo.name(zz)))
        if z["z"] == "SchedL1" or what == "bad" or unsolvable(z, x0, tau):
            continue
        y = np.array(y, copy=True)
        # the same call on an independently built equal operator, without history
        ref = np.asarray(do(zoo.build(z), what, x0.copy(), tau))
        agree(y, ref, z, nm, what, tau, x0, "call number %d differs from the same call on a new equal operator" % (k + 1), call["form"])
        key = (i, what, str(call["x"]), tau)
        if key in done:
            agree(y, done[key], z, nm, what, tau, x0, "the repeated call gives another result", call["form"])
            rep = rep or k - 1 > 0
        done[key] = y
        nz = nz or gen.nontriv(x0)
    return "+".join(sorted(set(o["z"] for o in objs))) if rep and nz and len(done) >= 2 else ""


def agree(y, ref, z, nm, what, tau, x, msg, form):
    if y.shape != ref.shape or y.dtype.kind != ref.dtype.kind:
        raise Violation("%s.%s: %s: %r and %r" % (nm, what, msg, y, ref))
    if y.dtype.kind == "b":
        if not np.array_equal(y, ref):
            raise Violation("%s.%s: %s: %r and %r" % (nm, what, msg, y, ref))
        return
    rt = 1e-6 if zoo.iterative(z) else 1e-10
    sc = max(mx(y), mx(ref), mx(x) * max(1, 1 / tau), 1.0 if zoo.iterative(z) else 0.0, zoo.dscale(z) * max(1, tau, 1 / tau))
    with np.errstate(invalid="ignore"):
        bad = ~((np.abs(y - ref) <= rt * sc) | (y == ref) | (np.isnan(y) & np.isnan(ref)))
    if np.any(bad):
        raise Violation("%s.%s(%s, tau=%r) [%s input]: %s:\n %s\n %s" % (nm, what, x, tau, form, msg, y, ref))


# ------------------------------------------------------------- operators without warm start
COLD = ["L2", "L2", "Quadratic", "Nonlinear"]


@gen.mk
def cold(draw):
    n, m = max(2, gen.dim(draw, 6)), draw(st.integers(1, 6))
    c = {"z": draw(st.sampled_from(COLD)), "n": n, "m": m, "A": gen.mat(draw, m, n), "b": gen.rvec(draw, m, (3, 1), scale=False), "w": gen.rvec(draw, n, (3, 1), scale=False),
         "q": draw(st.booleans()), "niter": draw(st.integers(1, 4)), "solver": draw(st.sampled_from(["cg", "cgls", "legacy"])), "sigma": gen.pos(draw),
         "x0": draw(st.sampled_from([None, "zero", "some"])), "start": gen.rvec(draw, n, (3, 1), scale=False), "xs": [gen.rvec(draw, n, scale=False) for _ in range(3)],
         "taus": [gen.pos(draw) for _ in range(2)], "calls": [[draw(st.integers(0, 2)), draw(st.integers(0, 1))] for _ in range(draw(st.integers(2, 6)))]}
    return c


def cold_op(c, x0):
    n, m = c["n"], c["m"]
    A, b, q = gen.arr(c["A"], (m, n)), gen.arr(c["b"]), gen.arr(c["w"])
    if c["z"] == "Nonlinear":
        return zoo.Rosen(np.zeros(n) if x0 is None else x0, niter=c["niter"], warm=False).setup(q)
    if c["z"] == "Quadratic":
        Op = pylops.FunctionOperator(lambda v: A.T @ (A @ v), lambda v: A.T @ (A @ v), n, n)
        return pp.Quadratic(Op=Op, b=q, niter=c["niter"], x0=x0, warm=False)
    Op = pylops.FunctionOperator(lambda v: A @ v, lambda v: A.T @ v, m, n)
    return pp.L2(Op=Op, b=b, q=q if c["q"] else None, sigma=c["sigma"], niter=c["niter"], x0=x0, warm=False, solver=c["solver"])


@sub("cold_start", cold, quick=400)
def _(c):
    """truncated inner solves without warm start: every call starts from the given point"""
    def x0():
        return {None: None, "zero": np.zeros(c["n"]), "some": gen.arr(c["start"])}[c["x0"]]
    start = x0()
    op = cold_op(c, start)
    sn = snap([] if start is None else [start])
    for k, (i, j) in enumerate(c["calls"]):
        x, tau = gen.arr(c["xs"][i]), c["taus"][j]
        y = np.array(op.prox(x.copy(), tau), copy=True)
        unchanged(sn, "%s.prox without warm start (its x0)" % c["z"])
        ref = cold_op(c, x0()).prox(x.copy(), tau)
        if y.shape != ref.shape or not np.all(np.abs(y - ref) <= 1e-9 * (mx(x) + mx(ref) + mx(start if start is not None else 0.0) + 1e-3)):
            raise Violation("%s(warm=False, niter=%d, x0=%s).prox, call number %d: %s; a new operator gives %s" % (c["z"], c["niter"], start, k + 1, y, ref))
    return "%s-%s" % (c["z"], c["x0"]) if len(set(map(tuple, c["calls"]))) > 1 and mx(y) > 0 else ""


# ------------------------------------------------------------- projections
PROJ = {
    "Box": lambda c: pj.BoxProj(c["arrs"][0], c["arrs"][0] + 1.0),
    "HyperPlaneBox": lambda c: pj.HyperPlaneBoxProj(c["arrs"][0], 0.5 * c["s"] * float(np.sum(np.abs(c["arrs"][0]))), -c["s"], c["s"]),
    "Simplex": lambda c: pj.SimplexProj(c["n"], c["s"]),
    "L0": lambda c: pj.L0BallProj(c["k"]),
    "L10": lambda c: pj.L10BallProj(c["k"]),
    "L1": lambda c: pj.L1BallProj(c["n"], c["s"]),
    "Euclidean": lambda c: pj.EuclideanBallProj(c["arrs"][0], c["s"]),
    "Nuclear": lambda c: pj.NuclearBallProj(min(c["k"] + 1, c["n"]), c["s"]),
    "Intersection": lambda c: pj.IntersectionProj(c["k"] + 1, c["n"], c["S"], niter=7),
    "AffineSet": lambda c: pj.AffineSetProj(pylops.MatrixMult(c["M"]), c["arrs"][1], 50),
    "Hankel": lambda c: pj.HankelProj(),
    "HalfSpace": lambda c: pj.HalfSpaceProj(c["arrs"][2], c["s"]),
    "Generic": lambda c: pj.GenericIntersectionProj([pj.BoxProj(-1.0, 1.0), pj.HalfSpaceProj(c["arrs"][2], c["s"])], niter=20),
}
MATRIX = ("L10", "Nuclear", "Hankel", "Intersection")


@gen.mk
def proj(draw):
    n = draw(st.integers(2, 5))
    k = draw(st.integers(0, 3))
    name = draw(st.sampled_from(sorted(PROJ)))
    N = n * (k + 1) if name in MATRIX else n
    return {"name": name, "n": n, "k": k, "s": gen.pos(draw), "arrs": [gen.rvec(draw, n, scale=False) for _ in range(3)],
            "cplx": False, "xs": [gen.rvec(draw, N, scale=False) for _ in range(3)], "form": draw(st.sampled_from(["plain", "strided", "readonly", "window", "fortran", "turned"])), "as2d": draw(st.booleans()),
            "order": draw(st.lists(st.integers(0, 2), min_size=3, max_size=7))}


@sub("projections", proj, quick=700)
def _(c):
    n, k = c["n"], c["k"]
    d = dict(n=n, k=k, s=c["s"], arrs=[gen.arr(a) for a in c["arrs"]])
    d["arrs"][2][0] += 1.0 if not np.any(d["arrs"][2]) else 0.0
    d["arrs"][0][0] += 1.0 if not np.any(d["arrs"][0]) else 0.0
    d["S"] = 0.5 + np.abs(np.arange((k + 1) ** 2, dtype=float).reshape(k + 1, k + 1) - c["s"])
    M = np.eye(n) + 0.1 * np.arange(n * n).reshape(n, n) / n ** 2
    d["M"] = M.copy()
    d0 = dict(d, arrs=[a.copy() for a in d["arrs"]], S=d["S"].copy(), M=M.copy())
    if c["name"] == "Intersection" and k == 0:
        return ""
    P = PROJ[c["name"]](d)
    sn = snap(d["arrs"] + [d["S"], d["M"]])
    first = {}
    shape = (k + 1, n) if c["name"] in MATRIX else (n,)
    if c["name"] == "HyperPlaneBox" and n % 2 == 0 and c["as2d"]:
        shape = (2, n // 2)
    for i in c["order"]:
        x0 = gen.arr(c["xs"][i], shape)
        x, owner = present(x0, c["form"])
        s = snap([x, owner])
        y = P(x)
        unchanged(s, c["name"] + " projection")
        unchanged(sn, c["name"] + " projection (constructor arguments)")
        y = np.array(y, copy=True)
        r = PROJ[c["name"]](dict(d0, arrs=[a.copy() for a in d0["arrs"]]))(x0.copy())
        for ref, msg in ((r, "a new projection"), (first.get(i, y), "the first call")):
            if y.shape != ref.shape or not np.all(np.abs(y - ref) <= 1e-10 * (1 + mx(x0) + mx(y))):
                raise Violation("%s projection of %s gives %s; %s gives %s" % (c["name"], x0, y, msg, ref))
        first[i] = y
    return c["name"] if len(c["order"]) > len(first) and gen.nontriv(x0) else ""


def unit(t):
    """the same tree with parameters of exactly one"""
    t = dict(t)
    if t["t"] == "leaf":
        t["p"] = {k: (1.0 if k in ("sigma", "alpha") and not isinstance(v, (list, dict)) else v) for k, v in t["p"].items()}
    if t["t"] == "mul":
        t["s"] = 1.0
    if t["t"] == "pre":
        t["a"] = 1.0
    for k in ("f",):
        if k in t:
            t[k] = unit(t[k])
    if "fs" in t:
        t["fs"] = [unit(f) for f in t["fs"]]
    return t


@gen.mk
def ones(draw):
    n = gen.dim(draw, 5)
    grad = draw(st.booleans())
    if draw(st.booleans()):        # a single operator with all, or none, of its optional terms
        name = draw(st.sampled_from(trees.LEAVES_GRAD if grad else trees.LEAVES_FUN))
        p = ops.REG[name].spec(draw, n)
        if name == "L21":
            p["nd"], p["n"] = 1, n
        if name == "L2" and draw(st.booleans()):
            p.pop("b", None)
            p["q"], p["alpha"] = gen.rvec(draw, n, scale=False), 1.0
        t = {"t": "leaf", "p": p, "n": n}
    else:
        t = trees.draw_tree(draw, n, draw(st.integers(0, 3)), grad=grad)
    return {"t": unit(t) if draw(st.integers(0, 2)) else t, "grad": grad, "x": gen.rvec(draw, n, scale=False), "y": gen.rvec(draw, n, scale=False), "tau": draw(st.sampled_from([1.0, 0.5, 3.0])),
            "calls": draw(st.lists(st.sampled_from(["value", "prox", "proxdual", "grad"]), min_size=1, max_size=4)) + ["grad"] * grad}


@sub("unit_parameters", ones, quick=500)
def _(c):
    """compositions with parameters of exactly one, where a term may be passed through instead of being computed"""
    op, tau = trees.build(c["t"]), c["tau"]
    x, y = gen.arr(c["x"]), gen.arr(c["y"])
    calls = [k for k in c["calls"] if k != "grad" or c["grad"]]
    run = lambda o, k, v: do(o, k, v, tau)
    for k in calls:
        rs = []
        for v in (x, y, x):
            a = v.copy()
            with np.errstate(all="ignore"):
                r = run(op, k, a)
            if not np.array_equal(a, v):
                raise Violation("%s of %s changed its input from %s to %s" % (k, trees.show(c["t"]), v, a))
            rs.append(np.array(r, dtype=float))
        with np.errstate(all="ignore"):
            if not np.allclose(rs[2], rs[0], rtol=1e-7, atol=1e-9 * (mx(x) + trees.affine_scale(c["t"], x) + trees.dscale(c["t"])), equal_nan=True):
                raise Violation("%s of %s repeated after another vector: %s, first %s" % (k, trees.show(c["t"]), rs[2], rs[0]))
    return c["t"]["t"] if calls and mx(x - y) > 0 else ""
