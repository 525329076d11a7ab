"""Generators of JSON-able data (all randomness comes from hypothesis)."""
import numpy as np
from hypothesis import strategies as st

STYLES = [(3, 1), (3, 1), (8, 2), (20, 4), (1000, 100), (10**6, 10**5)]


def mk(strategy_fn):
    """Turn f(draw) -> case into a strategy."""
    @st.composite
    def inner(draw):
        return strategy_fn(draw)
    return inner()


def num(draw, lo=None, style=None, nonzero=False):
    k, d = style or draw(st.sampled_from(STYLES))
    v = draw(st.integers(-k if lo is None else int(np.ceil(lo * d)), k)) / d
    if nonzero and v == 0:
        v = 1.0
    return v


def pos(draw, extra=()):
    """Positive scalar: round values, ties with others, several magnitudes."""
    kind = draw(st.integers(0, 5))
    if kind <= 2 or (kind == 3 and not extra):
        return draw(st.sampled_from([0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 4.0, 10.0]))
    if kind == 3:
        return draw(st.sampled_from(list(extra)))
    if kind == 4:
        return draw(st.integers(1, 1000)) / 100
    return draw(st.integers(1, 99)) / 10 * 10.0 ** draw(st.integers(-3, 2))


def dim(draw, k):
    """1..k, and now and then a good deal larger"""
    if draw(st.integers(0, 9)) < 9:
        return draw(st.integers(1, k))
    return draw(st.sampled_from([k + 1, k + 2, 8, 9, 12, 16, 17, 25, 33, 40, 64, 65, 100]))


BIG = 12    # longer vectors are expanded from a drawn seed


def ints(draw, n, k):
    if n > 2 * BIG:
        g = rng(draw(seeds()))
        v = g.integers(-k, k + 1, n)
        return (v * (g.random(n) < draw(st.sampled_from([1.0, 1.0, 0.3])))).tolist()
    return draw(st.lists(st.integers(-k, k), min_size=n, max_size=n))


def rvec(draw, n, style=None, scale=True, special=()):
    """Real vector as list. special: magnitudes placed exactly (or nearly) on some entries."""
    k, d = style or draw(st.sampled_from(STYLES))
    v = [i / d for i in ints(draw, n, k)]
    if scale and draw(st.integers(0, 9)) == 0:
        s = 10.0 ** draw(st.integers(-3, 3))
        v = [a * s for a in v]
    special = [s for s in special if np.isfinite(s)]
    if special and n > 2 * BIG and draw(st.booleans()):
        g = rng(draw(seeds()))
        sp = np.array(special)
        for i in np.flatnonzero(g.random(n) < 0.5):
            m = sp[g.integers(sp.size)] * [1, 1, 1 + 1e-6, 1 - 1e-6][g.integers(4)]
            v[i] = float(m if g.random() < 0.5 else -m)
    elif special and draw(st.booleans()):
        for i in range(n):
            c = draw(st.integers(0, 7))
            if c >= 4:
                m = draw(st.sampled_from(special))
                if c == 5:
                    m = m * (1 + 1e-6)
                elif c == 6:
                    m = m * (1 - 1e-6)
                elif c == 7:    # between two of them
                    m += (draw(st.sampled_from(special)) - m) * draw(st.integers(1, 7)) / 8
                v[i] = m if draw(st.booleans()) else -m
    if n > 1 and draw(st.integers(0, 5)) == 0:  # ties
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        v[i] = v[j] if draw(st.booleans()) else -v[j]
    return v


PHASES = [1, -1, 1j, -1j, 0.6 + 0.8j, -0.6 + 0.8j, 0.8 - 0.6j, -0.28 - 0.96j]


def cvec(draw, n, style=None, scale=True, special=()):
    if draw(st.booleans()):
        m = np.array(rvec(draw, n, style, scale, special))
        k = rng(draw(seeds())).integers(0, 8, n) if n > 2 * BIG else draw(st.lists(st.integers(0, 7), min_size=n, max_size=n))
        ph = np.array([PHASES[i] for i in k])
        v = m * ph
        return {"re": v.real.tolist(), "im": v.imag.tolist()}
    return {"re": rvec(draw, n, style, scale), "im": rvec(draw, n, style, scale)}


def vec(draw, n, cplx=False, **kw):
    return cvec(draw, n, **kw) if cplx else rvec(draw, n, **kw)


def arr(v, shape=None):
    """JSON vector -> new float64/complex128 array."""
    if isinstance(v, dict):
        a = np.array(v["re"], dtype=float) + 1j * np.array(v["im"], dtype=float)
    else:
        a = np.array(v, dtype=float)
    return a if shape is None else a.reshape(shape)


def mat(draw, m, n, cplx=False, k=3, d=1):
    """m*n entries flattened."""
    if cplx:
        return {"re": [i / d for i in ints(draw, m * n, k)], "im": [i / d for i in ints(draw, m * n, k)]}
    return [i / d for i in ints(draw, m * n, k)]


def rng(seed):
    """Values expanded deterministically from a drawn integer."""
    return np.random.Generator(np.random.PCG64(seed))


def seeds():
    return st.integers(0, 2**32 - 1)


def isc(v):
    return isinstance(v, dict)


def nontriv(x):
    x = np.asarray(x)
    return x.size > 0 and bool(np.any(x != 0))


def scale(v, s):
    """JSON number, list or complex vector times s"""
    if isinstance(v, dict):
        return {k: scale(a, s) for k, a in v.items()}
    return [a * s for a in v] if isinstance(v, list) else v * s


def size(v):
    """largest modulus of a JSON number or vector"""
    return float(np.max(np.abs(arr(v)), initial=0))


def poslist(draw, n):
    if n <= 2 * BIG:
        return [pos(draw) for _ in range(n)]
    g = rng(draw(seeds()))
    few = [pos(draw) for _ in range(4)]
    return [few[i] for i in g.integers(0, 4, n)]


def many(draw, k):
    """1..k iterations or calls, and now and then many more"""
    if draw(st.integers(0, 4)) < 4:
        return draw(st.integers(1, k))
    return draw(st.sampled_from([k + 1, k + 3, 15, 21, 32, 51, 51]))
