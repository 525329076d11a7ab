"""Slowly converging problems for the comparison of long runs with the reference recursions."""
import numpy as np
import pylops
import pyproximal as pp
from hypothesis import strategies as st

from . import gen

COUNTS = [40, 70, 110, 160, 260, 400]


def draw(draw):
    n = draw(st.integers(2, 4))
    return {"d": [1.0] + [draw(st.sampled_from([0.5, 0.1, 0.03, 0.01, 0.003])) for _ in range(n - 1)], "b": gen.rvec(draw, n, style=(8, 2), scale=False),
            "g": [draw(st.sampled_from(["l1", "box", "l2"])), draw(st.sampled_from([1e-4, 1e-3, 1e-2]))], "x0": gen.rvec(draw, n, style=(8, 2), scale=False),
            "niter": draw(st.sampled_from(COUNTS)), "frac": draw(st.sampled_from([0.1, 0.4, 0.95])), "gfirst": draw(st.booleans())}


def f(c):
    return pp.L2(Op=pylops.MatrixMult(np.diag(c["d"])), b=np.array(c["b"]), densesolver="numpy")


def g(c):
    k, s = c["g"]
    return pp.L1(sigma=s) if k == "l1" else pp.Box(-1 / s, 1 / s) if k == "box" else pp.L2(sigma=s)


def moving(its):
    """the run is still moving in its last iterations"""
    return len(its) > 5 and np.max(np.abs(its[-1] - its[-5])) > 1e-6
