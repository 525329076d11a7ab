"""C07 operator algebra."""
import numpy as np
from hypothesis import strategies as st

import pyproximal as pp
from vlib import gen, ops, trees
from vlib.core import Violation, sub
from vlib.util import mx, nrm, out, same, same_num, scalar

RULE = ("cases: expression trees (depth 1-4) over the algebra (+v, -v, s*, precomposition, chain, adjoint) and "
        "structural compositions with drawn leaves, vector and step; non-trivial: result differs from the plain leaf "
        "result at the same point")
ASSUMPTIONS = ["calculus rules in vlib/trees.py obtained by completing the square at every node",
               "values of trees with indicator leaves are not compared (boolean plus number)"]
TAUS = [0.01, 0.1, 0.5, 1.0, 2.0, 10.0]


def mktree(depth_lo, depth_hi, **kw):
    @gen.mk
    def strat(draw):
        n = gen.dim(draw, 5)
        t = trees.draw_tree(draw, n, draw(st.integers(depth_lo, depth_hi)), **kw)
        return {"t": t, "tau": draw(st.sampled_from(TAUS)), "x": gen.rvec(draw, n, scale=False),
                "y": gen.rvec(draw, n, scale=False)}
    return strat


ALG = dict(struct=False)


def scales(t, x, tau):
    # inner steps may be larger than tau by the product of the squared scalings
    g = gain(t)
    return mx(x) + trees.affine_scale(t, x) + trees.dscale(t) * max(1.0, tau * g) + mx(x) * 1e-3


def gain(t):
    k = t["t"]
    if k == "leaf":
        return 1.0
    if k == "vstack":
        return max(gain(f) for f in t["fs"])
    g = gain(t["f"])
    if k == "mul":
        return g * max(1.0, t["s"])
    if k == "pre":
        return g * max(1.0, t["a"] ** 2)
    if k == "part":
        return g * max(1.0, t["c"] ** 2)
    return g


def run_prox(c):
    t, tau = c["t"], c["tau"]
    x, y = gen.arr(c["x"]), gen.arr(c["y"])
    op = trees.build(t)
    for z in (x, y):
        p = out(op.prox(z.copy(), tau), z.shape, "prox", cplx=False)
        ref = trees.prox(t, z, tau)
        same(p, ref, "prox(tau=%g) of %s" % (tau, trees.show(t)), scales(t, z, tau) + mx(ref), 1e-7)
        p2 = out(op.prox(x=z.copy(), tau=tau), z.shape, "prox", cplx=False)
        same(p2, p, "prox with keyword arguments", mx(p), 1e-12)
    return t["t"] + str(min(trees.depth(t), 3)) if nrm(ref - y) > 0 else ""


sub("prox_algebra", mktree(1, 4, **ALG), quick=800)(run_prox)
sub("prox_all", mktree(1, 3), quick=800)(run_prox)


def run_dual(c):
    t, tau = c["t"], c["tau"]
    u = gen.arr(c["x"])
    op = trees.build(t)
    ref = u - tau * trees.prox(t, u / tau, 1 / tau)
    sc = tau * scales(t, u / tau, 1 / tau) + mx(ref) + mx(u)
    for f, what in ((op.proxdual, "proxdual"), (op.H.prox, "H.prox")):
        same(out(f(u.copy(), tau), u.shape, what), ref, "%s(tau=%g) of %s" % (what, tau, trees.show(t)), sc, 1e-7)
    same(out(op.H.proxdual(u.copy(), tau), u.shape, "H.proxdual"), op.prox(u.copy(), tau),
         "H.proxdual of %s" % trees.show(t), mx(u), 1e-10)
    return t["t"] if mx(ref - u) > 0 else ""


sub("dual_algebra", mktree(1, 3, **ALG), quick=600)(run_dual)


def run_value(c):
    t = c["t"]
    x = gen.arr(c["x"])
    op = trees.build(t)
    ref, sc = trees.val(t, x)
    same_num(scalar(op(x.copy()), "value"), ref, "value of %s" % trees.show(t), sc, 1e-9)
    return t["t"] + str(min(trees.depth(t), 3)) if gen.nontriv(x) else ""


sub("value_algebra", mktree(1, 4, ind=False, struct=False), quick=600)(run_value)


def run_grad(c):
    t = c["t"]
    x = gen.arr(c["x"])
    op = trees.build(t)
    if not op.hasgrad:
        raise Violation("%s of differentiable functions does not declare a gradient" % trees.show(t))
    with np.errstate(all="ignore"):
        ref = trees.grad(t, x)
    if not np.all(np.isfinite(ref)):
        return ""     # Euclidean norm at zero
    g = out(op.grad(x.copy()), x.shape, "grad", cplx=False)
    same(g, ref, "grad of %s" % trees.show(t), trees.gradscale(t, x), 1e-9)
    return t["t"] + str(min(trees.depth(t), 3)) if mx(ref) > 0 else ""


sub("grad_algebra", mktree(1, 4, ind=False, grad=True), quick=600)(run_grad)


@gen.mk
def cplx_case(draw):
    n = draw(st.integers(1, 4))
    name = draw(st.sampled_from(["L1", "L2", "Huber", "Euclidean", "EuclideanBall", "L21", "HuberCircular"]))
    o = ops.REG[name]
    p = o.spec(draw, n, True)
    N = int(np.prod(o.shape(p)))
    nodes = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["add", "sub", "mul", "pre"]))
        if k in ("add", "sub"):
            nodes.append([k, gen.cvec(draw, N, trees.MSTYLE, scale=False)])
        elif k == "mul":
            nodes.append([k, draw(st.sampled_from([0.5, 1.0, 2, 3.0]))])
        else:
            nodes.append([k, draw(st.sampled_from([-2.0, -0.5, 0.5, 2.0])), gen.cvec(draw, N, trees.MSTYLE, scale=False)])
    return {"p": p, "nodes": nodes, "tau": draw(st.sampled_from(TAUS)), "x": gen.cvec(draw, N, scale=False)}


@sub("prox_complex", cplx_case, quick=400)
def _(c):
    """affine algebra on complex vectors, f + Re<v,x>"""
    p = c["p"]
    o = ops.get(p)
    op, x, tau = o.build(p), gen.arr(c["x"]), c["tau"]
    for nd in c["nodes"]:
        k = nd[0]
        if k == "add":
            op = op + gen.arr(nd[1])
        elif k == "sub":
            op = op - gen.arr(nd[1])
        elif k == "mul":
            op = nd[1] * op
        else:
            op = op.precomposition(nd[1], gen.arr(nd[2]))
    big = [mx(x)]

    def ref(i, x, tau):
        big.append(mx(x))
        if i < 0:
            return o.prox(p, x, tau)
        nd = c["nodes"][i]
        k = nd[0]
        if k in ("add", "sub"):
            return ref(i - 1, x - (1 if k == "add" else -1) * tau * gen.arr(nd[1]), tau)
        if k == "mul":
            return ref(i - 1, x, tau * nd[1])
        a, b = nd[1], gen.arr(nd[2])
        return (ref(i - 1, a * x + b, tau * a * a) - b) / a
    r = ref(len(c["nodes"]) - 1, x, tau)
    y = out(op.prox(x.copy(), tau), x.shape, "prox")
    same(y, r, "prox of %s on complex %s" % ([nd[0] for nd in c["nodes"]], p["op"]), max(big) * 4 + trees.dscale({"t": "leaf", "p": p}), 1e-8)
    # value and gradient of the same composition
    if not o.ind:
        def vref(i, x):
            if i < 0:
                v = o.val(p, x)
                return v, max(abs(v), ops.vscale(p, x))
            nd = c["nodes"][i]
            k = nd[0]
            if k in ("add", "sub"):
                (v, s), w = vref(i - 1, x), gen.arr(nd[1])
                return v + (1 if k == "add" else -1) * float(np.sum(np.real(np.conj(w) * x))), s + float(np.sum(np.abs(w * x)))
            if k == "mul":
                return tuple(nd[1] * q for q in vref(i - 1, x))
            return vref(i - 1, nd[1] * x + gen.arr(nd[2]))
        v, s = vref(len(c["nodes"]) - 1, x)
        same_num(scalar(op(x.copy()), "value"), v, "value of %s on complex %s" % ([nd[0] for nd in c["nodes"]], p["op"]), s, 1e-9)
    if o.grad and (p["op"] != "Euclidean" or mx(x) > 0):
        def gref(i, x):
            if i < 0:
                with np.errstate(all="ignore"):
                    return o.gradient(p, x)
            nd = c["nodes"][i]
            k = nd[0]
            if k in ("add", "sub"):
                return gref(i - 1, x) + (1 if k == "add" else -1) * gen.arr(nd[1])
            if k == "mul":
                return nd[1] * gref(i - 1, x)
            return nd[1] * gref(i - 1, nd[1] * x + gen.arr(nd[2]))
        g = gref(len(c["nodes"]) - 1, x)
        if np.all(np.isfinite(g)):
            sg = (1 + p.get("sigma", 1.0)) * 10 * (max(big) + trees.dscale({"t": "leaf", "p": p})) * 100
            same(out(op.grad(x.copy()), x.shape, "grad"), g, "grad of %s on complex %s" % ([nd[0] for nd in c["nodes"]], p["op"]), sg + mx(g), 1e-9)
    return "+".join(nd[0] for nd in c["nodes"]) if mx(r - x) > 0 else ""


CHAINS = ["L1", "L2", "Huber", "Euclidean", "Box", "EuclideanBall", "HalfSpace", "L0", "Log1", "RelaxedMS"]


@gen.mk
def chain_case(draw):
    n = gen.dim(draw, 5)
    ps = [ops.REG[draw(st.sampled_from(CHAINS))].spec(draw, n) for _ in range(draw(st.integers(2, 4)))]
    tau = draw(st.sampled_from(TAUS))
    return {"ps": ps, "tau": tau, "x": gen.rvec(draw, n, scale=False), "mul": draw(st.booleans()),
            "s": draw(st.sampled_from([None, 0.5, 2.0])), "left": draw(st.booleans())}


@sub("chain", chain_case, quick=400)
def _(c):
    """g * f and f.chain(g) apply the prox of f, then that of g"""
    x, tau = gen.arr(c["x"]), c["tau"]
    fs = [ops.build(p) for p in c["ps"]]
    if c["left"]:
        op = fs[0]
        for g in fs[1:]:
            op = g * op if c["mul"] and type(g) is not type(op) else op.chain(g)
    else:
        op = fs[-1]
        for f in fs[-2::-1]:
            op = op * f if c["mul"] and type(f) is not type(op) else f.chain(op)
    s = 1.0
    if c["s"]:
        op, s = c["s"] * op, c["s"]
    y = out(op.prox(x.copy(), tau), x.shape, "chain.prox")
    z = x
    sc = mx(x)
    for p in c["ps"]:
        z = ops.get(p).prox(p, z, tau * s)
        sc = max(sc, mx(z))
    if not np.allclose(y, z, rtol=0, atol=1e-9 * (sc + 1)):
        # thresholding discontinuities: the intermediate point may sit on a jump
        for p in c["ps"]:
            if not ops.get(p).convex:
                return ""
        raise Violation("chain of %s: got %s expected %s" % ([p["op"] for p in c["ps"]], y, z))
    d = out(op.proxdual(x.copy(), tau), x.shape, "chain.proxdual")
    same(d, x - tau * op.prox(x / tau, 1 / tau), "chain.proxdual", sc * (1 + tau), 1e-9)
    first = ops.get(c["ps"][0]).prox(c["ps"][0], x, tau * s)
    if mx(first - z) == 0 or mx(first - x) == 0:
        return ""
    return "%d" % len(fs)


@gen.mk
def hist(draw):
    n = draw(st.integers(1, 4))
    name = draw(st.sampled_from(["L1", "L2", "L2Op", "Huber", "Euclidean", "Quadratic", "Box", "EuclideanBall", "L21"]))
    p = ops.REG[name].spec(draw, n)
    if name == "L21":
        p["nd"], p["n"] = 1, n
    t = {"t": "leaf", "p": p, "n": n}
    nodes = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["add", "sub", "mul", "pre", "H2"]))
        nd = {"t": k, "n": n}
        if k in ("add", "sub"):
            nd["v"] = gen.rvec(draw, n, trees.MSTYLE, scale=False)
        elif k == "mul":
            nd["s"] = draw(st.sampled_from([0.5, 2, 3.0]))
        elif k == "pre":
            nd["a"] = draw(st.sampled_from([-2.0, 0.5, 3.0]))
            nd["b"] = gen.rvec(draw, n, trees.MSTYLE, scale=False)
        nd["on"] = draw(st.integers(0, 3))
        nodes.append(nd)
    return {"leaf": t, "nodes": nodes, "x": gen.rvec(draw, n, scale=False), "tau": draw(st.sampled_from(TAUS)),
            "order": draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["p", "d", "v", "g"])), min_size=3, max_size=10))}


@sub("sharing", hist, quick=400)
def _(c):
    """several composites share operands; calls in any order leave all of them behaving as their own function"""
    x, tau = gen.arr(c["x"]), c["tau"]
    made = [(c["leaf"], trees.build(c["leaf"]))]
    vs = []
    for nd in c["nodes"]:
        base_t, base = made[nd["on"] % len(made)]
        t = dict(nd)
        t["f"] = base_t
        k = nd["t"]
        if k in ("add", "sub"):
            v = gen.arr(nd["v"])
            vs.append((v, v.copy()))
            op = base + v if k == "add" else base - v
        elif k == "mul":
            op = nd["s"] * base
        elif k == "pre":
            b = gen.arr(nd["b"])
            vs.append((b, b.copy()))
            op = base.precomposition(nd["a"], b)
        else:
            op = base.H.H
        made.append((t, op))
    for i, what in c["order"]:
        t, op = made[i % len(made)]
        if what == "p":
            ref = trees.prox(t, x, tau)
            same(op.prox(x, tau), ref, "prox of %s after sharing" % trees.show(t), scales(t, x, tau) + mx(ref), 1e-7)
        elif what == "d":
            ref = x - tau * trees.prox(t, x / tau, 1 / tau)
            same(op.proxdual(x, tau), ref, "proxdual of %s after sharing" % trees.show(t),
                 tau * scales(t, x / tau, 1 / tau) + mx(ref), 1e-7)
        elif what == "v":
            if not ops.get(c["leaf"]["p"]).ind:
                ref, sc = trees.val(t, x)
                same_num(scalar(op(x), "value"), ref, "value of %s after sharing" % trees.show(t), sc, 1e-9)
        if not np.array_equal(x, gen.arr(c["x"])):
            raise Violation("%s of %s modified its input" % (what, trees.show(t)))
    for a, b in vs:
        if not np.array_equal(a, b):
            raise Violation("a vector given to the algebra was modified")
    return "%d" % len(made) if mx(x) > 0 else ""


@gen.mk
def bad(draw):
    n = draw(st.integers(1, 4))
    p = ops.REG[draw(st.sampled_from(["L1", "L2", "Box", "Euclidean"]))].spec(draw, n)
    return {"p": p, "k": draw(st.sampled_from(["add_float", "add_list", "add_none", "sub_str", "rmul_str", "rmul_none",
                                               "post_str", "post_none", "pre_str", "pre_none", "pre_list", "pre_bstr",
                                               "affine_list", "affine_float", "add_op"])),
            "nest": draw(st.booleans())}


@sub("invalid_operands", bad, quick=150)
def _(c):
    op = ops.build(c["p"])
    n = c["p"]["n"]
    if c["nest"]:
        op = 2.0 * (op + np.ones(n))
    k = c["k"]
    f = {"add_float": lambda: op + 3.0, "add_list": lambda: op + [1.0] * n, "add_none": lambda: op + None,
         "sub_str": lambda: op - "a", "rmul_str": lambda: "a" * op, "rmul_none": lambda: None * op,
         "post_str": lambda: op.postcomposition("2"), "post_none": lambda: op.postcomposition(None),
         "pre_str": lambda: op.precomposition("1", 0.0), "pre_none": lambda: op.precomposition(2.0, None),
         "pre_list": lambda: op.precomposition(2.0, [1.0] * n), "pre_bstr": lambda: op.precomposition(2.0, "b"),
         "affine_list": lambda: op.affine_addition([1.0] * n), "affine_float": lambda: op.affine_addition(1.0),
         "add_op": lambda: op + op}[k]
    try:
        r = f()
        if k.startswith("rmul"):
            r.prox(np.ones(n), 1.0)     # a chain may be rejected when it is first used
    except Exception:
        return k
    raise Violation("%s: accepted, returned %r" % (k, r))
