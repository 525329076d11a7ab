BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="s01_simplex_cap", property="C17", file="proximal/Simplex.py",
    edits=[("""                fun_jit(bisect_upper, x, self.coeffs, self.radius, 0, 10000000000) > 0
            ):
                bisect_upper *= 2
""", """                fun_jit(bisect_upper, x, self.coeffs, self.radius, 0, 10000000000) > 0
                and bisect_upper < 64
            ):
                bisect_upper *= 2
""")],
    needs="engine='numba' without dims and an input whose shift is larger than 64",
    breaks="the numba engine stops extending the bracket of the bisection at 64, so inputs of larger magnitude are not projected onto the simplex while the numpy engine projects them",
    demo="""
import numpy as np
from pyproximal.proximal import Simplex
x = np.array([150., 148.5, -3., 90.])
a = Simplex(4, 2., engine='numba').prox(x.copy(), 1.)
b = Simplex(4, 2., engine='numpy').prox(x.copy(), 1.)
assert np.allclose(a, b, atol=1e-5), (a, b)
""")

bug(id="s02_halfspace_norm", property="C04", file="projection/HalfSpace.py",
    edits=[("self.w_norm_sq = np.dot(w, w)", "self.w_norm_sq = max(float(np.dot(w, w)), 1e-3)")],
    needs="a normal vector with squared norm below 1e-3",
    breaks="points are not moved onto the half space when the normal vector is short",
    demo="""
import numpy as np
from pyproximal.proximal import HalfSpace
w = np.array([0.01, -0.02, 0.005]); b = -0.1
x = np.array([3., -4., 1.])
y = HalfSpace(w, b).prox(x, 1.)
assert w @ y <= b + 1e-9, w @ y
""")

bug(id="s03_scad_threshold", property="C03", file="proximal/SCAD.py",
    edits=[("        first_threshold = self.sigma * (self.a - 1 - tau + tau * self.a) / (self.a - 1)\n",
            "        first_threshold = self.sigma * (1 + min(tau, 1.0))\n")],
    needs="tau larger than one together with an entry between 2*sigma and (1+tau)*sigma",
    breaks="entries between the two thresholds are sent to a point which does not minimise the proximal objective",
    demo="""
import numpy as np
from pyproximal.proximal import SCAD
sigma, a, tau, x = 1., 3.7, 1.6, np.array([2.3])
f = SCAD(sigma, a)
y = f.prox(x, tau)
obj = lambda z: f(np.array([z])) + (z - x[0])**2 / (2*tau)
zz = np.linspace(-1, 5, 60001)
best = min(obj(z) for z in zz[::20])
assert obj(y[0]) <= best + 1e-6, (obj(y[0]), best)
""")

bug(id="s04_l10ball_cancel", property="C05", file="proximal/L0.py",
    edits=[("return bool(np.linalg.norm(np.linalg.norm(x, ord=1, axis=0), ord=0) <= radius)",
            "return bool(np.linalg.norm(np.sum(x, axis=0), ord=0) <= radius)")],
    needs="a nonzero column whose entries cancel exactly",
    breaks="points outside of the ball are reported as members",
    demo="""
import numpy as np
from pyproximal.proximal import L10Ball
x = np.array([[1., 2., 0.], [-1., 3., 0.]])
assert not L10Ball(2, 1)(x.ravel())
""")

bug(id="s05_l0ball_shrink", property="C14", file="proximal/L0.py",
    edits=[("""        radius = _current_radius(self.radius, self.count)
        self.ball.radius = radius
        y = self.ball(x)
        return y

""", """        radius = _current_radius(self.radius, self.count)
        self.ball.radius = min(radius, self.ball.radius) if self.count > 1 else radius
        y = self.ball(x)
        return y

""")],
    needs="a radius schedule that grows again after the first call",
    breaks="the radius of the ball can only shrink over the calls, so calls with a growing schedule use a radius of an earlier call",
    demo="""
import numpy as np
from pyproximal.proximal import L0Ball
f = L0Ball(lambda k: [3, 1, 2, 4, 4][k])
x = np.arange(1., 7.)
n = [np.count_nonzero(f.prox(x, 1.)) for _ in range(3)]
assert n == [1, 2, 4], n
""")

bug(id="s06_dykstra_stop", property="C09", file="proximal/_Dykstra.py",
    edits=[("        if max(ncp.abs(u_old - u).max(), ncp.abs(u_prev - u).max()) < tol:\n",
            "        if ncp.abs(u_old - u).max() < tol:\n")],
    needs="three or more sets and a start so far away that the iterate rests in a corner of the last set for several sweeps",
    breaks="the iterations are stopped although the individual projections still disagree, so the result is not in the intersection",
    demo="""
import numpy as np
from pyproximal.projection import GenericIntersectionProj, HalfSpaceProj, BoxProj
ps = [HalfSpaceProj(np.array([2., 3.]), 0.), HalfSpaceProj(np.array([-2., -1.]), 0.), BoxProj(-2., 2.)]
x = np.array([-88.85706126, -9.7681571])
y = GenericIntersectionProj(ps, niter=20000, tol=1e-6)(x)
assert 2 * y[0] + 3 * y[1] <= 1e-3 and -2 * y[0] - y[1] <= 1e-3, y
""")

bug(id="s07_orthogonal_alpha", property="C08", file="proximal/Orthogonal.py",
    edits=[("self.f.prox(y + self.b, self.alpha * tau) - self.b)", "self.f.prox(y + self.b, tau) - self.b)")],
    needs="partial=True with alpha different from one",
    breaks="the inner proximal operator is evaluated with tau instead of alpha*tau",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L1, Orthogonal
Q = pylops.MatrixMult(2. * np.eye(3)); b = np.zeros(3)
x = np.array([1., -2., .3]); tau = .2
y = Orthogonal(L1(), Q, partial=True, b=b, alpha=4.).prox(x, tau)
z = np.sign(x) * np.maximum(np.abs(x) - 2 * tau, 0)
assert np.allclose(y, z), (y, z)
""")

bug(id="s08_vstack_restr_dtype", property="C08", file="proximal/VStack.py",
    edits=[("""            f = np.zeros_like(x)
            for op, restr in zip(self.ops, self.restr, strict=True):
                f[restr.iava] = op.prox(restr.matvec(x), tau)
""", """            # restrictions are listed in the order of the stacked vector
            f = np.hstack([op.prox(restr.matvec(x), tau)
                           for op, restr in zip(self.ops, self.restr, strict=True)])
            f = f[np.hstack([restr.iava for restr in self.restr])]
""")],
    needs="restrictions whose concatenated index list is a permutation that is not its own inverse",
    breaks="the blocks are scattered with the inverse permutation, so block results land in the wrong entries",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L1, L2, VStack
r1 = pylops.Restriction(3, [1, 2]); r2 = pylops.Restriction(3, [0])
v = VStack([L1(), L2()], restr=[r1, r2])
x = np.array([1., 5., -3.])
y = v.prox(x, 1.)
assert np.allclose(y, [.5, 4., -2.]), y
""")

bug(id="s09_tv4d_weights", property="C12", file="proximal/TV.py",
    edits=[("""                        + np.power(np.abs(k), 2)
                        + np.power(np.abs(u), 2)
""", """                        + np.power(np.abs(k), 2)
""")],
    needs="four dimensional inputs with enough variation for the weights to exceed one",
    breaks="the dual ball of the four dimensional total variation ignores the fourth component",
    demo="""
import numpy as np
from pyproximal.proximal import TV
rng = np.random.RandomState(0)
dims = (3, 3, 3, 3)
x = rng.normal(0, 3, 81)
f = TV(dims, sigma=1., niter=600, rtol=0.)
def val(x):
    X = x.reshape(dims); g = np.zeros(dims)
    for a in range(4):
        d = np.diff(X, axis=a); pad = [(0, 0)] * 4; pad[a] = (0, 1)
        g = g + np.pad(d, pad) ** 2
    return np.sqrt(g).sum()
tau = .7
y = f.prox(x, tau)
obj = lambda z: val(z) + np.sum((z - x)**2) / (2 * tau)
best = obj(y)
m = x.mean()
# x + eps-perturbations towards the mean and along the direction to x
for t in np.linspace(-.3, .3, 61):
    for d in (x - y, m - y, np.ones(81)):
        assert obj(y + t * d) >= best - 1e-3 * best, (t, obj(y + t * d), best)
for ax in range(4):
    Y = y.reshape(dims); s = Y.mean(axis=ax, keepdims=True) + 0 * Y
    for t in np.linspace(-.3, .3, 61):
        assert obj(y + t * (s.ravel() - y)) >= best - 1e-3 * best, (ax, t)
""")

bug(id="s10_precomp_negative", property="C07", file="ProxOperator.py",
    edits=[("        return (self.f.prox(self.a * x + self.b, (self.a**2) * tau) - self.b) / self.a\n",
            "        return (self.f.prox(self.a * x + self.b, abs(self.a) * tau) - self.b) / self.a\n")],
    needs="a precomposition with |a| different from one",
    breaks="prox of f(ax+b) uses |a| tau in place of a^2 tau",
    demo="""
import numpy as np
from pyproximal.proximal import L1
x = np.array([1., -3., .2])
f = L1().precomposition(-2., 1.)
y = f.prox(x, .5)
z = -2 * x + 1
z = (np.sign(z) * np.maximum(np.abs(z) - 2., 0) - 1) / -2
assert np.allclose(y, z), (y, z)
""")

bug(id="s11_rmul_merge", property="C07", file="ProxOperator.py",
    edits=[("""        if isinstance(sigma, (int, float)):
            return self.postcomposition(float(sigma))
""", """        if isinstance(sigma, (int, float)):
            if isinstance(self, _PostcompositionOperator) and sigma == 1:
                return self.f
            return self.postcomposition(float(sigma))
""")],
    needs="an operator scaled twice, the second time by exactly one",
    breaks="scaling a scaled operator by one drops the earlier factor",
    demo="""
import numpy as np
from pyproximal.proximal import L1
x = np.array([1., -3., .2])
f = 1. * (2. * L1())
assert np.allclose(f.prox(x, .1), np.sign(x) * np.maximum(np.abs(x) - .2, 0))
""")

bug(id="s13_l0proj_inplace", property="C16", file="projection/L0.py",
    edits=[("        xf = x.copy().flatten()\n", "        xf = np.array(x, copy=None, order='C').reshape(-1)\n")],
    needs="checking the input array after the projection",
    breaks="the projection onto the L0 ball zeroes the entries of the caller's array",
    demo="""
import numpy as np
from pyproximal.proximal import L0Ball
x = np.array([1., -3., .2]); x0 = x.copy()
L0Ball(1).prox(x, 1.)
assert np.array_equal(x, x0), x
""")

bug(id="s14_moreau_tau", property="C06", file="ProxOperator.py",
    edits=[("        p = x - tau * self.proxdual(x / tau, 1.0 / tau, **kwargs)\n",
            "        p = x - tau * self.proxdual(x / tau, tau, **kwargs)\n")],
    needs="an operator which implements proxdual only, with a dual proximal that depends on its step, and tau != 1",
    breaks="the proximal obtained from proxdual by the Moreau identity uses the wrong step of the dual",
    demo="""
import numpy as np
import pyproximal
from pyproximal.ProxOperator import ProxOperator
class Dual(ProxOperator):
    # f = ||x||^2 / 2, f* = ||x||^2 / 2
    def proxdual(self, x, tau):
        return x / (1 + tau)
x = np.array([1., 2.])
assert np.allclose(Dual().prox(x, .5), x / 1.5)
""")

bug(id="s15_l2_factor_cache", property="C13", file="proximal/L2.py",
    edits=[("                    if self.tausigma != tau * self.sigma:\n", "                    if not np.isclose(self.tausigma, tau * self.sigma, rtol=1e-2):\n")],
    needs="densesolver='factorize' and two calls with step lengths that differ by less than one percent",
    breaks="the cached factorisation is reused for a different step length",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2
rng = np.random.RandomState(0)
A = rng.normal(0, 1, (5, 4)); b = rng.normal(0, 1, 5); x = rng.normal(0, 1, 4)
f = L2(pylops.MatrixMult(A), b, densesolver='factorize')
for tau in (1., 1.005):
    y = f.prox(x, tau)
    z = np.linalg.solve(np.eye(4) + tau * A.T @ A, x + tau * A.T @ b)
    assert np.allclose(y, z, atol=1e-9), (tau, y - z)
""")

bug(id="s16_l2_legacy_tau", property="C13", file="proximal/L2.py",
    edits=[("""            if self.warm:
                self.x0 = x
        elif self.b is not None:
            num = x + tau""", """            if self.warm:
                self.x0 = x
                if callable(self.niter) and niter == 1:
                    # a single iteration does not provide a useful starting guess
                    self.x0 = y
        elif self.b is not None:
            num = x + tau""")],
    needs="a callable niter that returns one, followed by further warm started calls with few iterations",
    breaks="the warm start uses the right hand side instead of the last solution",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2
rng = np.random.RandomState(0)
A = rng.normal(0, 1, (6, 4)); b = rng.normal(0, 1, 6); x = rng.normal(0, 1, 4)
Op = pylops.FunctionOperator(lambda v: A @ v, lambda v: A.T @ v, 6, 4, dtype='float64')
f = L2(Op, b, niter=lambda k: 1)
g = L2(Op, b, niter=1)
for _ in range(3):
    assert np.allclose(f.prox(x, .3), g.prox(x, .3))
""")

bug(id="s17_nuclear_trunc", property="C10", file="proximal/Nuclear.py",
    edits=[("""        Sth = _softthreshold(S, tau * sigma)
        X = np.dot(U * Sth, Vh)
""", """        Sth = _softthreshold(S, tau * sigma)
        k = max(int(np.argmin(Sth)), 1)
        X = np.dot(U[:, :k] * Sth[:k], Vh[:k]) if Sth[-1] == 0 else np.dot(U * Sth, Vh)
""")],
    needs="a vector of weights under which a singular value is removed while a smaller one is kept",
    breaks="singular values behind the first removed one are lost",
    demo="""
import numpy as np
from pyproximal.proximal import Nuclear
X = np.diag([3., 2., 1.5])
y = Nuclear((3, 3), sigma=np.array([.1, 2.5, 1.])).prox(np.diag([3., 2., 1.]).ravel(), 1.)
assert np.allclose(y.reshape(3, 3), np.diag([2.9, 0., 0.])), y
y = Nuclear((4, 4), sigma=np.array([.1, 2.5, .2, 1.])).prox(np.diag([3., 2., 1.5, .5]).ravel(), 1.)
assert np.allclose(y.reshape(4, 4), np.diag([2.9, 0., 1.3, 0.])), y
""")

bug(id="s18_quadratic_cache", property="C13", file="proximal/Quadratic.py",
    edits=[("""                Op1 = MatrixMult(np.eye(self.Op.shape[0]) + tau * self.Op.A)
                x = Op1.div(y)
""", """                if getattr(self, "_tau", None) is None or tau > self._tau:
                    self._tau = tau
                    self._inv = np.linalg.inv(np.eye(self.Op.shape[0]) + tau * self.Op.A)
                x = self._inv @ y
""")],
    needs="an explicit operator and a sequence of calls with a decreasing step length",
    breaks="the inverse computed for an earlier, larger step length is reused",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Quadratic
rng = np.random.RandomState(0)
A = rng.normal(0, 1, (4, 4)); A = A @ A.T; b = rng.normal(0, 1, 4)
f = Quadratic(pylops.MatrixMult(A), b)
for tau in (.1, 1., .5):
    x = rng.normal(0, 1, 4)
    y = f.prox(x, tau)
    z = np.linalg.solve(np.eye(4) + tau * A, x - tau * b)
    assert np.allclose(y, z, atol=1e-8), y - z
""")

bug(id="s19_qecard_edge", property="C03", file="proximal/QuadraticEnvelope.py",
    edits=[("            r[idx] = np.maximum(0, (r[idx] - tau * np.sqrt(2 * self.mu)) / (1 - tau))\n",
            "            r[idx] = np.maximum(0, (r[idx] - tau * np.sqrt(2 * self.mu)) / max(1 - tau, 0.1))\n")],
    needs="tau between 0.9 and 1",
    breaks="the slope of the thresholding is wrong close to the limit of the nonconvex regime",
    demo="""
import numpy as np
from pyproximal.proximal import QuadraticEnvelopeCard
mu, tau = .5, .95
f = QuadraticEnvelopeCard(mu)
x = np.array([.98])
y = f.prox(x, tau)
obj = lambda z: f(np.array([z])) + (z - x[0])**2 / (2*tau)
best = min(obj(z) for z in np.linspace(0, 2, 4001))
assert obj(y[0]) <= best + 1e-7, (obj(y[0]), best)
""")

bug(id="s20_eucl_grad", property="C11", file="proximal/L2.py",
    edits=[("            g = self.sigma * (x - self.b)\n", "            g = self.sigma * x - self.b\n")],
    needs="L2 with data but no operator and a sigma different from one",
    breaks="the gradient of sigma/2 ||x-b||^2 does not scale b",
    demo="""
import numpy as np
from pyproximal.proximal import L2
x = np.array([1., 2.]); b = np.array([3., -1.])
assert np.allclose(L2(b=b, sigma=2.).grad(x), 2 * (x - b))
""")
