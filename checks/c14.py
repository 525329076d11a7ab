"""C14 call-count schedules."""
import numpy as np
from hypothesis import strategies as st

import pylops
import pyproximal as pp
from vlib import gen
from vlib.core import Violation, sub
from vlib.util import mx, out, same

RULE = ("cases: one to three schedule-capable operators (sharing or not their schedule function), schedules of drawn values "
        "or constants, and histories of up to 12 prox/dual/value/gradient calls or up to 260 prox calls; non-trivial: at least three prox calls "
        "with a schedule taking at least two values")
ASSUMPTIONS = ["the model is a fresh operator built with the constant value of the schedule for the current count",
               "calls rejected because of a non-positive step are not part of the histories",
               "dual prox and envelope gradient derived from prox count as a prox call, direct duals (L1) do not"]

KINDS = ["L1", "L1rows", "L0", "L0Ball", "L10Ball", "RMS", "TV", "L2"]


def draw_sched(draw, kind, n):
    m = draw(st.integers(2, 8))
    if kind in ("L0Ball", "L10Ball"):
        return [draw(st.integers(0, n)) for _ in range(m)]
    if kind in ("TV", "L2"):
        return [draw(st.integers(1, 4)) for _ in range(m)]
    if kind == "L1rows":
        return [[gen.pos(draw) for _ in range(n)] for _ in range(m)]
    return [gen.pos(draw) for _ in range(m)]


@gen.mk
def case(draw):
    objs = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(KINDS))
        n = draw(st.integers(2, 4))
        o = {"kind": kind, "n": n, "const": draw(st.integers(0, 4)) == 0, "wrap": draw(st.sampled_from([None, None, "mul", "add", "H"]))}
        share = draw(st.booleans()) and objs and objs[-1]["kind"] == kind and objs[-1]["n"] == n
        o["v"] = objs[-1]["v"] if share else draw_sched(draw, kind, n)
        o["share"] = bool(share)
        if kind == "RMS":
            o["k"] = [gen.pos(draw) for _ in range(draw(st.integers(1, 4)))]
        if kind == "L1" and draw(st.booleans()):
            o["g"] = gen.rvec(draw, n, scale=False)
        if kind == "L2":
            o["A"] = gen.mat(draw, n, n)
            o["b"] = gen.rvec(draw, n, scale=False)
            o["warm"] = draw(st.booleans())
            o["solver"] = draw(st.sampled_from(["cg", "cgls", "legacy"]))
        if kind in ("L1rows", "L10Ball", "TV"):
            o["wrap"] = None
        objs.append(o)
    calls = []
    for _ in range(draw(st.integers(1, 12))):
        i = draw(st.integers(0, len(objs) - 1))
        N = objs[i]["n"] * (2 if objs[i]["kind"] in ("L1rows", "L10Ball") else 1)
        calls.append({"i": i, "what": draw(st.sampled_from(["prox", "prox", "prox", "prox", "proxdual", "value", "grad"])),
                      "tau": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])), "x": gen.rvec(draw, N, scale=False)})
    return {"objs": objs, "calls": calls}


class Sched:
    def __init__(self, v):
        self.v = v

    def __call__(self, k):
        v = self.v[min(k, len(self.v) - 1)]
        return np.array(v) if isinstance(v, list) else v


def make(o, val, kval=None, x0=None):
    k, n = o["kind"], o["n"]
    if k == "L1":
        op = pp.L1(sigma=val, g=gen.arr(o["g"]) if "g" in o else None)
    elif k == "L1rows":
        op = pp.L1(sigma=val)
    elif k == "L0":
        op = pp.L0(sigma=val)
    elif k == "L0Ball":
        op = pp.L0Ball(val)
    elif k == "L10Ball":
        op = pp.L10Ball(2, val)
    elif k == "RMS":
        op = pp.RelaxedMumfordShah(sigma=val, kappa=kval)
    elif k == "TV":
        op = pp.TV((n,), sigma=1.3, niter=val, rtol=0.0)
    else:
        A = gen.arr(o["A"], (n, n))
        op = pp.L2(Op=pylops.FunctionOperator(lambda v: A @ v, lambda v: A.T @ v, n, n), b=gen.arr(o["b"]), niter=val,
                   warm=o["warm"], x0=x0, solver=o["solver"])
    w = o["wrap"]
    if w == "mul":
        return op, 2.0 * op
    if w == "add":
        return op, op + np.ones(n)
    if w == "H":
        return op, op.H
    return op, op


def at(v, k):
    return Sched(v)(k)


@sub("histories", case, quick=600)
def _(c):
    objs = c["objs"]
    fs = {}
    ops_, counts, warm = [], [], []
    for i, o in enumerate(objs):
        v = at(o["v"], 1) if o["const"] else (fs[i - 1] if o["share"] and i - 1 in fs else Sched(o["v"]))
        if not o["const"]:
            fs[i] = v
        kv = None
        if o["kind"] == "RMS":
            kv = at(o["k"], 0) if len(o["k"]) == 1 else Sched(o["k"])
        ops_.append(make(o, v, kv)[1])
        counts.append(0)
        warm.append(None)
    nprox = 0
    for ci, call in enumerate(c["calls"]):
        i = call["i"]
        o = objs[i]
        x, tau, what = gen.arr(call["x"]), call["tau"], call["what"]
        if o["kind"] == "L1rows":
            x = x.reshape(2, o["n"])
        if what == "grad" and (o["kind"] == "L2" or o["wrap"] is not None):
            what = "prox"
        if what == "value" and o["wrap"] == "H":
            what = "prox"
        direct = (o["kind"] in ("L1", "L1rows") and "g" not in o)
        inner = {"prox": "proxdual", "proxdual": "prox"}.get(what, what) if o["wrap"] == "H" else what
        # the derived duals of compositions go through their prox
        if o["wrap"] in ("mul", "add"):
            uses_prox = what in ("prox", "proxdual", "grad")
        else:
            uses_prox = inner in ("prox", "grad") or (inner == "proxdual" and not direct)
        if uses_prox:
            counts[i] += 1
            nprox += 1
        k = counts[i]
        val = at(o["v"], 1 if o["const"] else k)
        kv = (at(o["k"], 0) if len(o["k"]) == 1 else at(o["k"], k)) if o["kind"] == "RMS" else None
        base, ref = make(o, val, kv, None if warm[i] is None else warm[i].copy())

        def do(op):
            if what == "prox":
                return op.prox(x.copy(), tau)
            if what == "proxdual":
                return op.proxdual(x.copy(), tau)
            if what == "grad":
                return op.grad(x.copy())
            return op(x.copy())
        got, want = do(ops_[i]), do(ref)
        if what == "value":
            if not got == want:
                raise Violation("%s after %d prox calls evaluates to %r; with the value %r of the schedule it is %r" % (
                    o["kind"], k, got, val, want))
        else:
            same(np.asarray(got), np.asarray(want), "%s.%s, prox call number %d (schedule value %r)" % (o["kind"], what, k, val),
                 mx(x), 1e-12)
        if o["kind"] == "L2" and o["warm"] and uses_prox:
            warm[i] = base.x0.copy()
    varied = any(not o["const"] and len(set(map(str, o["v"]))) > 1 for o in objs)
    return "+".join(sorted(set(o["kind"] for o in objs))) if nprox >= 3 and varied else ""


@gen.mk
def long_case(draw):
    kind = draw(st.sampled_from(KINDS + ["RMS", "RMS"]))
    n = draw(st.integers(2, 4))
    odd = lambda v: (v + v[:1])[:len(v) | 1]          # (periods that do not divide powers of two)
    o = {"kind": kind, "n": n, "wrap": None if kind in ("L1rows", "L10Ball", "TV") else draw(st.sampled_from([None, None, "mul", "add", "H"])), "v": odd(draw_sched(draw, kind, n))}
    if kind == "RMS":
        o["k"] = odd([gen.pos(draw) for _ in range(draw(st.integers(2, 5)))])
    if kind == "L2":
        o.update(A=gen.mat(draw, n, n), b=gen.rvec(draw, n, scale=False), warm=False, solver=draw(st.sampled_from(["cg", "cgls", "legacy"])))
    N = n * (2 if kind in ("L1rows", "L10Ball") else 1)
    return {"o": o, "calls": draw(st.sampled_from([40, 80, 130, 260])), "xs": [gen.rvec(draw, N, scale=False) for _ in range(3)], "tau": draw(st.sampled_from([0.1, 0.5, 1.0]))}


class Cycle(Sched):
    def __call__(self, k):
        v = self.v[k % len(self.v)]
        return np.array(v) if isinstance(v, list) else v


@sub("long_histories", long_case, quick=300)
def _(c):
    """schedules that keep changing over hundreds of calls"""
    o = c["o"]
    op = make(o, Cycle(o["v"]), Cycle(o["k"]) if o["kind"] == "RMS" else None)[1]
    refs = {}
    per = len(o["v"]) * (len(o["k"]) if o["kind"] == "RMS" else 1) * 3
    for k in range(1, c["calls"] + 1):
        x = gen.arr(c["xs"][k % 3])
        if o["kind"] == "L1rows":
            x = x.reshape(2, o["n"])
        what = "proxdual" if o["wrap"] == "H" else "prox"      # a prox of the wrapped operator
        got = np.asarray(getattr(op, what)(x.copy(), c["tau"]))
        if k % per not in refs:
            r = make(o, Cycle(o["v"])(k), Cycle(o["k"])(k) if o["kind"] == "RMS" else None)[1]
            refs[k % per] = np.asarray(getattr(r, what)(x.copy(), c["tau"]))
        same(got, refs[k % per], "%s.%s, prox call number %d of a periodic schedule" % (o["kind"], what, k), mx(x), 1e-12)
    return o["kind"] + str(c["calls"]) if len(set(map(str, o["v"]))) > 1 else ""


@gen.mk
def solver(draw):
    n = draw(st.integers(2, 6))
    kind = draw(st.sampled_from(["L1", "L0", "L0Ball", "RMS"]))
    return {"kind": kind, "n": n, "v": draw_sched(draw, kind, n), "b": gen.rvec(draw, n, scale=False), "x0": gen.rvec(draw, n, scale=False),
            "tau": draw(st.sampled_from([0.1, 0.5, 0.9])), "niter": gen.many(draw, 8), "alg": draw(st.sampled_from(["PG", "PPA", "HQS", "ADMM"]))}


@sub("inside_solvers", solver, quick=300)
def _(c):
    """iteration k of a solver sees the k-th value of the schedule"""
    n, tau = c["n"], c["tau"]
    b, x0 = gen.arr(c["b"]), gen.arr(c["x0"])

    def g(v):
        return {"L1": lambda: pp.L1(sigma=v), "L0": lambda: pp.L0(sigma=v), "L0Ball": lambda: pp.L0Ball(v),
                "RMS": lambda: pp.RelaxedMumfordShah(sigma=v, kappa=1.0)}[c["kind"]]()
    op, f = g(Sched(c["v"])), pp.L2(b=b)
    its = []
    cb = lambda x, *a: its.append(np.array(x, copy=True))
    opt = pp.optimization.primal
    x, z, u = x0.copy(), x0.copy(), np.zeros(n)
    if c["alg"] == "PG":
        opt.ProximalGradient(f, op, x0=x0.copy(), tau=tau, niter=c["niter"], tol=None, callback=cb)
    elif c["alg"] == "PPA":
        opt.ProximalPoint(op, x0.copy(), tau, niter=c["niter"], tol=None, callback=cb)
    elif c["alg"] == "HQS":
        opt.HQS(f, op, x0.copy(), tau, niter=c["niter"], callback=cb)
    else:
        opt.ADMM(f, op, x0.copy(), tau, niter=c["niter"], callback=cb)
    for k in range(c["niter"]):
        p = g(at(c["v"], k + 1))
        if c["alg"] == "PG":
            x = p.prox(x - tau * (x - b), tau)
        elif c["alg"] == "PPA":
            x = p.prox(x, tau)
        elif c["alg"] == "HQS":
            z = p.prox(x, tau)
            x = f.prox(z, tau)
        else:
            x = f.prox(z - u, tau)
            z = p.prox(x + u, tau)
            u = u + x - z
        same(its[k], x, "iterate %d of %s with a scheduled %s" % (k + 1, c["alg"], c["kind"]), mx(b) + mx(x0), 1e-9)
    return c["alg"] + "-" + c["kind"] if c["niter"] >= 2 and len(set(c["v"])) > 1 else ""
