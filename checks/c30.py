"""C30 relations between calls: nonexpansiveness, symmetries, precision."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen, ops, trees, zoo
from vlib.core import Skip, Violation, sub
from vlib.util import mx, nrm, out, rdot

RULE = ("cases: every convex operator (base, composed, dual, per-axis, iteratively solved) with pairs of points from 1e-9 to 1e9 apart, with entries placed on kinks and "
        "thresholds; permutations, sign flips, phases, rotations and rescalings applied to point and parameters together; single and double precision, real and complex "
        "representation of the same point; non-trivial: the two points (or the two representations) are mapped to different, non-zero results, or the transformation is not the identity")
ASSUMPTIONS = ["an error of the prox within its documented accuracy loosens the inequality accordingly",
               "penalties that are not convex are compared only where the point is not within 1e-6 of a jump, and under transformations that floating point performs exactly",
               "single precision results are compared to the double precision result with 2e-5 relative accuracy; where the map amplifies rounding (solves with a matrix) 2e-3"]
CONV = ops.CONVEX_FUN + ops.CONVEX_IND + ["Nuclear"]
SOLVE = {"L2Op": 1e-7, "Quadratic": 1e-7, "AffineSet": 1e-5, "Euclidean": 1e-9}


# ------------------------------------------------------------------ pairs of points
def draw_pair(draw, n, cplx, special):
    x = gen.vec(draw, n, cplx, special=special)
    k = draw(st.integers(0, 6))
    if k == 0:
        return x, gen.vec(draw, n, cplx, special=special)
    s = 10.0 ** draw(st.integers(-9, 9))
    if k == 1:      # everywhere close (or far)
        d = gen.vec(draw, n, cplx, style=(3, 1), scale=False)
        return x, lin(x, d, s)
    if k == 2:      # one entry moved
        i = draw(st.integers(0, n - 1))
        e = [0.0] * n
        e[i] = 1.0 if draw(st.booleans()) else -1.0
        return x, lin(x, {"re": e, "im": e} if cplx else e, s)
    if k == 3:      # scaled
        return x, lin(x, x, draw(st.sampled_from([-2.0, -1.0, 1e-3, -1e-3, 1.0, 1e-6])))
    if k == 4:
        return x, lin(x, x, -1.0)
    return x, gen.vec(draw, n, cplx, special=special)


def lin(x, d, s):
    y = gen.arr(x) + s * gen.arr(d)
    return {"re": y.real.tolist(), "im": y.imag.tolist()} if gen.isc(x) else y.tolist()


@gen.mk
def pair(draw):
    k = draw(st.integers(0, 9))
    if k <= 6:
        c = None
        while c is None:
            c = zoo.draw(draw, ("reg",), names=[CONV[draw(st.integers(0, len(CONV) - 1))]], maxn=7)
            if not ops.convex_fun(c["p"]):
                c["p"]["sigma"] = 1.0
        sp = ops.get(c["p"])
    elif k == 7:
        c = zoo.draw(draw, ("tree",), maxn=6)
    else:
        c = zoo.draw(draw, ("other",), names=["Simplex2", "NumbaSimplex", "Adjoint", "L2Iter", "OrthC", "SVP1"], maxn=5) if k == 8 else zoo.draw(draw, ("other",), names=["Adjoint", "OrthC", "Simplex2"])
    tau = gen.pos(draw)
    special = ops.get(c["p"]).special(c["p"], tau) if c["z"] == "reg" else (c.get("sigma", 1.0),)
    n = int(np.prod(c["shape"]))
    x, y = draw_pair(draw, n, c["cplx"], tuple(special))
    return {"c": c, "tau": tau, "x": x, "y": y, "dual": c["z"] != "Adjoint" and draw(st.integers(0, 4)) == 0}


def zbuild(c):
    if c["z"] == "SVP1":
        return pp.SingularValuePenalty((c["m"], c["n"]), pp.L1(sigma=c["sigma"]))
    return zoo.build(c)


def zacc(c, x, tau):
    z = c["z"]
    if z == "reg":
        p = c["p"]
        return ops.get(p).acc(p, x) + SOLVE.get(p["op"], 0.0) * (mx(x) + 1) * (1 + tau)
    if z == "tree":
        return 1e-7 * (mx(x) + trees.affine_scale(c["t"], x) + 1)
    if z in ("Simplex2", "NumbaSimplex"):
        return 2e-7
    if z in ("L2Iter", "Adjoint"):
        return 1e-6 * (mx(x) + 1) * (1 + tau)
    return 0.0


def zname(c):
    return c["p"]["op"] if c["z"] == "reg" else c["z"]


@sub("pairs", pair, quick=2500)
def _(k):
    c, tau = k["c"], k["tau"]
    x, y = gen.arr(k["x"], c["shape"]), gen.arr(k["y"], c["shape"])
    if c["z"] == "L2Iter" and c["solver"] == "legacy" and (mx(x) == 0 or mx(y) == 0):
        return ""       # scipy's LSQR does not leave its starting point when the right-hand side is zero
    op = zbuild(c)
    f = op.proxdual if k["dual"] else op.prox
    what = "%s.%s(tau=%g)" % (zname(c), "proxdual" if k["dual"] else "prox", tau)
    a = out(f(x.copy(), tau), x.shape, what, None if np.iscomplexobj(x) else False)
    b = out(f(y.copy(), tau), x.shape, what, None if np.iscomplexobj(x) else False)
    S = mx(x) + mx(y) + mx(a) + mx(b) + (parm(c["p"]) * (1 + tau) if c["z"] == "reg" else 1.0)
    e = zacc(c, x, tau) + zacc(c, y, tau)
    if k["dual"]:       # x - tau prox(x/tau)
        e = tau * (zacc(c, x / tau, 1 / tau) + zacc(c, y / tau, 1 / tau)) + e
    e = (e + 1e-12 * S) * np.sqrt(x.size)
    u, v = a - b, (x - a) - (y - b)
    t = 2 * e * (nrm(u) + nrm(v)) + 8 * e * e
    ip = rdot(u, v)
    if ip < -t:
        raise Violation("%s is not firmly nonexpansive: <Px-Py, (x-Px)-(y-Py)> = %g (allowed %g)\n x=%s -> %s\n y=%s -> %s" % (what, ip, -t, x, a, y, b))
    if nrm(u) > nrm(x - y) + 2 * e:
        raise Violation("%s expands the distance %g to %g" % (what, nrm(x - y), nrm(u)))
    return zname(c) + ("*" if k["dual"] else "") if nrm(u) > 10 * e and nrm(v) > 10 * e else ""


# ------------------------------------------------------------------ symmetries
CUT = {"L0", "Log", "Log1", "ETP", "Geman", "SCAD", "QECard", "QECardInd", "RelaxedMS", "L0Ball", "L10Ball"}
SYM = ["L1", "L1W", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Euclidean", "Nuclear", "EuclideanBall", "L1Ball", "SimplexSet", "Box", "NuclearBall"] + sorted(CUT)
HOM = {"L1", "L1W", "L21", "L21_plus_L1", "Euclidean", "Nuclear", "EuclideanBall", "L1Ball", "SimplexSet", "Box", "NuclearBall", "HuberCircular", "Huber"}


ROT = ("HuberCircular", "Euclidean", "EuclideanBall", "Nuclear", "NuclearBall", "L21")
PHASE = ["L1", "L1W", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Euclidean", "EuclideanBall", "Nuclear", "L1Ball", "NuclearBall"]


def draw_sym(draw, name, kinds=None, cplx=None, dual=3):
    o = ops.REG[name]
    n = max(o.minn, gen.dim(draw, 6))
    p = o.spec(draw, n, draw(st.booleans()) if cplx is None else cplx)
    tau = gen.pos(draw)
    if name == "SCAD":
        tau = min(tau, 0.9 * o.maxtau(p))
    x = o.x(draw, p, tau)
    if kinds is None:
        kinds = ["perm", "sign"] + (["scale"] if name in HOM else []) + (["rot"] if name in ROT else [])
        if name == "SimplexSet":
            kinds = ["perm", "scale", "shift"]
        if p["cplx"]:
            kinds = kinds + ["conj"]
    N = int(np.prod(o.shape(p)))
    kind = draw(st.sampled_from(kinds))
    return {"p": p, "tau": tau, "x": x, "kind": kind, "dual": kind in ("perm", "sign", "rot") and name not in CUT and draw(st.integers(0, dual)) == 0, "seed": draw(gen.seeds()), "ph": draw(st.lists(st.integers(0, 7), min_size=N, max_size=N)),
            "s": draw(st.sampled_from([2.0, 0.5, 1024.0, 2.0 ** -10, 3.0, 1e-3, 1e3, 2.0 ** 20, 0.1])), "sh": gen.num(draw, style=(20, 4))}


@gen.mk
def sym(draw):
    return draw_sym(draw, draw(st.sampled_from(SYM)))


@gen.mk
def phase(draw):
    name = draw(st.sampled_from(PHASE))
    return draw_sym(draw, name, ["sign", "rot", "conj"] if name in ROT else ["sign", "conj"], True, 1)


def orth(k, rng, cplx):
    M = rng.standard_normal((k, k)) + (1j * rng.standard_normal((k, k)) if cplx else 0)
    return np.linalg.qr(M)[0]


def transform(k):
    """(parameters, step, map) of the transformed problem, or None"""
    p, kind, tau = dict(k["p"]), k["kind"], k["tau"]
    name, n = p["op"], p["n"]
    rng = gen.rng(k["seed"])
    cplx = p["cplx"]
    shp = tuple(ops.get(p).shape(p))
    N = int(np.prod(shp))

    def tr(key, T):
        if key in p and (isinstance(p[key], (list, dict))):
            y = T(gen.arr(p[key]))
            p[key] = {"re": y.real.tolist(), "im": y.imag.tolist()} if np.iscomplexobj(y) else y.tolist()
    if kind == "scale":
        s = k["s"]
        if name in ("L1", "Box", "EuclideanBall"):
            for key in ("g", "lo", "hi", "center", "radius"):
                if isinstance(p.get(key), (int, float)):
                    p[key] *= s
                tr(key, lambda v: s * v)
        elif name in ("L1Ball", "SimplexSet", "NuclearBall"):
            p["radius"] *= s
            p["xtol"] = p["xtol"] * s
            if not 1e-13 < p["xtol"] < 1e-3:
                return None
        elif name in ("Huber", "HuberCircular"):
            p["alpha"] *= s
        return p, tau * s, lambda x: s * x
    if kind == "shift":
        return p, tau, lambda x: x
    if kind == "conj":
        for key in ("g", "center"):
            tr(key, np.conj)
        return p, tau, np.conj
    if kind == "perm":
        if name in ("L21", "L10Ball"):
            a, b = rng.permutation(p["nd"]), rng.permutation(n)
            return p, tau, lambda x: x.reshape(p["nd"], n)[a][:, b].ravel()
        if name == "L21_plus_L1":
            a, b = rng.permutation(p["nd"]), rng.permutation(n)
            return p, tau, lambda x: x[a][:, b].copy()
        if name == "L1W":
            a, b = rng.permutation(n), rng.permutation(p["cols"])
            tr("sigma", lambda v: v[b])
            return p, tau, lambda x: x[a][:, b].copy()
        if name in ("Nuclear", "NuclearBall"):
            a, b = rng.permutation(p["m"]), rng.permutation(n)
            return p, tau, lambda x: x.reshape(p["m"], n)[a][:, b].ravel()
        q = rng.permutation(n)
        for key in ("g", "center", "lo", "hi"):
            tr(key, lambda v: v[q])
        return p, tau, lambda x: x[q].copy()
    if kind == "sign":
        sg = np.array([gen.PHASES[i] for i in k["ph"]]) if cplx else np.array([1.0 if i < 4 else -1.0 for i in k["ph"]])
        if cplx and name in CUT:
            sg = np.array([gen.PHASES[i % 4] for i in k["ph"]])
        if name in ("Nuclear", "NuclearBall"):
            sg = sg[0] * np.ones(N)
        if name == "Box":
            sg = sg[0] * np.ones(N)
            if sg[0] < 0:
                lo, hi = p.pop("lo", None), p.pop("hi", None)
                neg = lambda v: [-t for t in v] if isinstance(v, list) else -v
                if hi is not None:
                    p["lo"] = neg(hi)
                if lo is not None:
                    p["hi"] = neg(lo)
            return p, tau, lambda x: sg * x
        if name == "EuclideanBall" and not isinstance(p["center"], (list, dict)):
            sg = sg[0] * np.ones(N)
            if cplx and sg[0].imag != 0:
                return None
            p["center"] = float(np.real(sg[0])) * p["center"]
            return p, tau, lambda x: sg * x
        if name in ("L21", "L10Ball"):
            sg = sg.reshape(p["nd"], n)
            if name == "L21":
                pass
            return p, tau, lambda x: (sg * x.reshape(p["nd"], n)).ravel()
        for key in ("g", "center"):
            tr(key, lambda v: sg * v)
        return p, tau, lambda x: sg.reshape(x.shape) * x
    # rotations
    if name in ("Nuclear", "NuclearBall"):
        U, V = orth(p["m"], rng, cplx), orth(n, rng, cplx)
        return p, tau, lambda x: (U @ x.reshape(p["m"], n) @ V).ravel()
    if name == "L21":
        U = orth(p["nd"], rng, cplx)
        return p, tau, lambda x: (U @ x.reshape(p["nd"], n)).ravel()
    U = orth(n, rng, cplx)
    if name == "EuclideanBall":
        if not isinstance(p["center"], (list, dict)):
            p["center"] = (p["center"] * np.ones(n)).tolist()
        tr("center", lambda v: U @ v)
    return p, tau, lambda x: U @ x


def near_jump(p, x, tau):
    """too close to a discontinuity to compare two evaluations"""
    o = ops.get(p)
    name = p["op"]
    r = np.abs(x).ravel()
    if name in ("L0Ball", "L10Ball", "QECardInd"):
        if name == "L10Ball":
            r = np.sqrt(np.sum(np.abs(x.reshape(p["nd"], p["n"])) ** 2, axis=0))
        s = np.sort(r)
        return np.any(np.diff(s) < 1e-6 * (s[-1] + 1e-300)) if s.size > 1 else False
    return False


def check_symmetry(k):
    T = transform(k)
    if T is None:
        return ""
    p2, tau2, M = T
    p, tau = k["p"], k["tau"]
    o = ops.get(p)
    x = o.arr(p, k["x"])
    if p["op"] in CUT and near_jump(p, x, tau):
        return ""
    if p["op"] == "Nuclear" and isinstance(p["sigma"], list):
        S = ops.svals(x.reshape(p["m"], p["n"]))
        if S.size > 1 and np.any(-np.diff(S) < 1e-3 * (S[0] + 1e-300)):
            return ""
    f, f2 = o.build(p), o.build(p2)
    what = "%s under %s, tau=%g" % (p["op"], k["kind"], tau)
    if k.get("dual"):
        a = out(f.proxdual(x.copy(), tau), x.shape, what)
        z = M(x)
        b, ref = out(f2.proxdual(z.copy(), tau2), x.shape, what), M(a)
        e = (o.acc(p, x / tau) * 2.1 + o.acc(p2, z / tau)) * tau + 1e-10 * (mx(z) + mx(ref) + parm(p) * (1 + tau))
        if mx(b - ref) > e:
            raise Violation("proxdual of %s does not commute:\n x=%s -> %s, transformed %s\n Tx=%s -> %s" % (what, x, a, ref, z, b))
        return "%s-%s-dual" % (p["op"], k["kind"]) if mx(ref) > 0 and mx(z - x) > 0 else ""
    a = out(f.prox(x.copy(), tau), x.shape, what)
    if k["kind"] == "shift":      # the simplex lies in a hyperplane: a common shift changes nothing
        z = x + k["sh"]
        b, ref = out(f.prox(z.copy(), tau), x.shape, what), a
        v1 = v2 = 0.0
    else:
        z = M(x)
        b, ref = out(f2.prox(z.copy(), tau2), x.shape, what), M(a)
        v1 = v2 = 0.0
        if not o.ind:
            v1, v2 = float(np.real(f(x))), float(np.real(f2(z)))
    e = o.acc(p, x) * 2.1 * (k["s"] if k["kind"] == "scale" else 1.0) + o.acc(p2, z) + 1e-10 * (mx(z) + mx(ref))
    if p["op"] in ("EuclideanBall", "L1", "Box"):
        e += 1e-10 * max([abs(v) for key in ("g", "center") if isinstance(p2.get(key), list) for v in p2[key]] + [0.0])
        if isinstance(p2.get("center"), float):
            e += 1e-10 * abs(p2["center"])
    if k["kind"] == "shift":
        e += 1e-10 * abs(k["sh"])
    if mx(b - ref) > e:
        raise Violation("prox of %s does not commute:\n x=%s -> %s, transformed %s\n Tx=%s -> %s" % (what, x, a, ref, z, b))
    if not o.ind and k["kind"] != "shift" and p["op"] != "QECardInd":
        r = k["s"] if k["kind"] == "scale" else 1.0
        vs = r * v1
        if abs(vs - v2) > 1e-9 * (abs(vs) + abs(v2) + r * (1 + mx(x)) * (p["op"] in CUT or "g" in p or p["op"] == "Huber") * 10):
            raise Violation("value of %s: %r at x, %r at the transformed point" % (what, v1, v2))
    return "%s-%s" % (p["op"], k["kind"]) if mx(ref) > 0 and mx(z - x) > 0 else ""


sub("symmetry", sym, quick=1500)(check_symmetry)
sub("phase", phase, quick=600)(check_symmetry)


# ------------------------------------------------------------------ representation and precision
PREC_SOLVE = {"L2Op", "Quadratic", "AffineSet", "Nuclear", "NuclearBall", "Hankel", "HalfSpace"}


@gen.mk
def rep(draw):
    name = draw(st.sampled_from(sorted(set(ops.REG) - {"QECardInd"})))
    o = ops.REG[name]
    p = o.spec(draw, max(o.minn, gen.dim(draw, 6)), draw(st.integers(0, 2)) == 0)
    tau = draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 3.0]))
    if name == "SCAD":
        tau = min(tau, 0.9 * o.maxtau(p))
    N = int(np.prod(o.shape(p)))
    return {"p": p, "tau": tau, "x": gen.vec(draw, N, p["cplx"], style=draw(st.sampled_from([(3, 1), (20, 4), (1000, 100)])), scale=False, special=o.special(p, tau)),
            "mode": draw(st.sampled_from(["single", "single", "zeroimag", "strided", "dual32"]))}


def jumps(p, x, tau):
    """the prox moves a lot when the point moves a little (decided on the double precision operator)"""
    o = ops.get(p)
    f = o.build(p)
    a = f.prox(x.copy(), tau)
    s = 1e-4 * (1 + mx(x))
    for d in (1.0, -1.0):
        b = f.prox(x * (1 + d * 1e-5), tau)
        if mx(a - b) > s:
            return True
    return False


@sub("precision", rep, quick=1200)
def _(k):
    p, tau = k["p"], k["tau"]
    o = ops.get(p)
    x = o.arr(p, k["x"])
    name, mode = p["op"], k["mode"]
    what = "%s.prox(tau=%g) of %s input" % (name, tau, mode)
    x32 = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    xd = x32.astype(x.dtype)
    if not o.convex and (near_jump(p, xd, tau) or jumps(p, xd, tau)):
        return ""
    if name == "Nuclear" and not ops.convex_fun(p) and jumps(p, xd, tau):
        return ""
    f = o.build(p)
    if mode == "single":
        ref = out(f.prox(xd.copy(), tau), xd.shape, what)
        y = out(f.prox(x32.copy(), tau), xd.shape, what, None if np.iscomplexobj(x) else False)
        t = (2e-3 if name in PREC_SOLVE else 2e-5) * (1 + mx(xd) + mx(ref) + parm(p)) + 2 * o.acc(p, xd)
        if mx(y - ref) > t:
            raise Violation("%s %s: %s, in double precision %s" % (what, x32, y, ref))
        return "%s-%s" % (name, x32.dtype.name) if mx(ref) > 0 and mx(ref - xd) > 0 else ""
    if mode == "dual32":
        if not o.convex:
            return ""
        ref = out(f.proxdual(xd.copy(), tau), xd.shape, what)
        y = out(f.proxdual(x32.copy(), tau), xd.shape, what, None if np.iscomplexobj(x) else False)
        t = (2e-3 if name in PREC_SOLVE else 2e-5) * (1 + mx(xd) + mx(ref) + parm(p)) * (1 + tau) + 2 * tau * o.acc(p, xd / tau)
        if mx(y - ref) > t:
            raise Violation("%s: proxdual of %s is %s, in double precision %s" % (what, x32, y, ref))
        return "%s-dual" % name if mx(ref) > 0 else ""
    if mode == "strided":      # the same values held in a view with strides
        big = np.zeros((x.size, 3), dtype=x.dtype)
        big[:, 1] = x.ravel()
        v = big[:, 1]
        if x.ndim > 1:
            v = np.asfortranarray(x)
        ref = out(f.prox(x.copy(), tau), x.shape, what)
        y = out(o.build(p).prox(v, tau), x.shape, what, None if np.iscomplexobj(x) else False)
        if mx(y - ref) > 1e-9 * (1 + mx(x) + mx(ref)) + 2 * o.acc(p, x):
            raise Violation("%s: %s gives %s, contiguous %s" % (what, x, y, ref))
        return "%s-strided" % name if mx(ref) > 0 else ""
    if not o.cplx or p["cplx"]:
        return ""
    ref = out(f.prox(x.copy(), tau), x.shape, what, False)
    y = out(f.prox(x.astype(complex), tau), x.shape, what)
    if mx(y - ref) > 1e-9 * (1 + mx(x) + mx(ref)) + 2 * o.acc(p, x):
        raise Violation("%s: %s gives %s as a complex vector and %s as a real one" % (what, x, y, ref))
    if not o.ind:
        a, b = float(np.real(f(x))), float(np.real(f(x.astype(complex))))
        if abs(a - b) > 1e-9 * (1 + abs(a) + abs(b)):
            raise Violation("value of %s at %s: %r as a real vector, %r as a complex one" % (name, x, a, b))
    return "%s-zeroimag" % name if mx(ref) > 0 else ""


def parm(p):
    s = 0.0
    for key in ("g", "center", "b", "lo", "hi", "radius", "sigma"):
        v = p.get(key)
        if isinstance(v, (int, float)):
            s = max(s, abs(v))
        elif isinstance(v, (list, dict)):
            s = max(s, mx(gen.arr(v)))
    return s
