import math
import numpy as np
from .core import Violation, require


def out(y, shape, what, cplx=None):
    """Validate an array returned by the library."""
    if not isinstance(y, np.ndarray):
        raise Violation("%s returned %r instead of an array" % (what, type(y)))
    if tuple(y.shape) != tuple(shape):
        raise Violation("%s returned shape %s, expected %s" % (what, y.shape, tuple(shape)))
    if y.dtype.kind not in "fc":
        raise Violation("%s returned dtype %s" % (what, y.dtype))
    if not np.all(np.isfinite(y)):
        raise Violation("%s returned non-finite values %s" % (what, y))
    if cplx is False and np.iscomplexobj(y):
        raise Violation("%s returned complex values for real input" % what)
    return y


def scalar(v, what):
    if isinstance(v, (bool, np.bool_)):
        raise Violation("%s returned a boolean instead of a number" % what)
    try:
        f = float(v)
    except (TypeError, ValueError):
        raise Violation("%s returned %r instead of a number" % (what, v)) from None
    if math.isnan(f):
        raise Violation("%s returned nan" % what)
    return f


def boolean(v, what):
    if not isinstance(v, (bool, np.bool_)):
        raise Violation("%s returned %r instead of a boolean" % (what, v))
    return bool(v)


def close(a, b, scale=0.0, rtol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    s = max(float(np.max(np.abs(a), initial=0)), float(np.max(np.abs(b), initial=0)), float(scale))
    return bool(np.all(np.abs(a - b) <= rtol * s + 1e-300))


def same(a, b, what, scale=0.0, rtol=1e-9):
    if np.asarray(a).shape != np.asarray(b).shape:
        raise Violation("%s: shapes %s and %s" % (what, np.asarray(a).shape, np.asarray(b).shape))
    if not close(a, b, scale, rtol):
        raise Violation("%s:\n got      %s\n expected %s" % (what, a, b))


def same_num(a, b, what, scale=0.0, rtol=1e-9, tag=None):
    if not abs(a - b) <= rtol * max(abs(a), abs(b), scale) + 1e-300:
        raise Violation("%s: got %r expected %r" % (what, a, b), tag)


def mx(x):
    return float(np.max(np.abs(x), initial=0.0))


def nrm(x):
    return float(np.linalg.norm(np.asarray(x).ravel()))


def rdot(a, b):
    return float(np.real(np.vdot(np.asarray(a).ravel(), np.asarray(b).ravel())))


__all__ = ["out", "scalar", "boolean", "close", "same", "same_num", "mx", "nrm", "rdot", "require", "Violation"]
