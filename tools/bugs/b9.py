"""ninth batch"""
BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="q01_apd_s", property="C23", file="optimization/primaldual.py",
    edits=[("        elif p < s * d / delta:\n", "        elif p < d / delta:\n")],
    needs="a balance s other than one and a primal residual that is too small",
    breaks="the adaptive steps balance the residuals at another ratio in one direction",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primaldual import AdaptivePrimalDual
from pyproximal.proximal import L1, L2
r = np.random.RandomState(0)
A = r.randn(4, 3)
f, g = L2(b=r.randn(3)), L1()
tau, mu, al, s, de, eta = 1., 1e-2, .5, 50., 1.5, .95
x, st = AdaptivePrimalDual(f, g, pylops.MatrixMult(A), np.ones(3), tau, mu, alpha=al, s=s, delta=de, eta=eta, niter=15)
xk, y, Ax, ATy = np.ones(3), np.zeros(4), A @ np.ones(3), np.zeros(3)
for k in range(15):
    xo, yo, Axo, ATo = xk, y, Ax, ATy
    xk = f.prox(xk - tau * ATy, tau); Ax = A @ xk
    y = g.proxdual(y + mu * (2 * Ax - Axo), mu); ATy = A.T @ y
    p = np.linalg.norm((xo - xk) / tau - (ATo - ATy)); d = np.linalg.norm((yo - y) / mu - (Axo - Ax))
    if p > s * d * de:
        tau /= 1 - al; mu *= 1 - al; al *= eta
    elif p < s * d / de:
        tau *= 1 - al; mu /= 1 - al; al *= eta
    assert np.isclose(st[0][k + 1], tau), (k, st[0], tau)
""")

bug(id="q02_apd_z", property="C23", file="optimization/primaldual.py",
    edits=[("        Axold = Ax.copy()\n        ATyold = ATy.copy()\n", "        Axold = Ax.copy()\n"),
           ("        x = proxf.prox(x - tau * ATy, tau)\n        Ax = A.matvec(x)\n        Axhat", "        ATyold = ATy.copy()\n        x = proxf.prox(x - tau * ATy, tau)\n        Ax = A.matvec(x)\n        Axhat")],
    needs="an additional linear term z",
    breaks="the primal residual contains z and the steps adapt to it (and the tolerance is never reached)",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primaldual import AdaptivePrimalDual
from pyproximal.proximal import L1, L2
n = []
AdaptivePrimalDual(L2(b=np.ones(2)), L1(sigma=.1), pylops.Identity(2), np.zeros(2), 1., 1., z=np.array([3., 4.]), niter=2000, tol=1e-8, callback=n.append)
assert len(n) < 2000
""")

bug(id="q04_ipalm_old", property="C20", file="optimization/palm.py",
    edits=[("            xold = x.copy()\n            x, tauf = _backtracking(\n                [z, y]", "            xold = z.copy()\n            x, tauf = _backtracking(\n                [z, y]")],
    needs="inertia together with backtracking on the first factor",
    breaks="the inertia is taken from the extrapolated point rather than from the previous iterate",
    demo="""
import numpy as np
from pyproximal.optimization.palm import iPALM
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
r = np.random.RandomState(0)
X, Y = r.rand(3, 1), r.rand(1, 4)
d = (r.rand(3, 2) @ r.rand(2, 4)).ravel()
H = LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
xs = [X.ravel().copy()]
ys = [Y.ravel().copy()]
iPALM(H, None, None, X.ravel(), Y.ravel(), None, 1., a=[.8, 0.], niter=4, callback=lambda x, y: (xs.append(x.copy()), ys.append(y.copy())))
H = LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
tau = 1.
for k in range(4):
    z = xs[k] + .8 * (xs[k] - xs[max(k - 1, 0)])
    H.updatex(z); H.updatey(ys[k])
    g = H.gradx(z)
    while True:
        n = z - tau * g
        if H(n, ys[k]) <= H(z, ys[k]) + g @ (n - z) + np.sum((n - z) ** 2) / 2 / tau:
            break
        tau /= 2
    assert np.allclose(n, xs[k + 1]), (k, n, xs[k + 1])
""")

bug(id="q06_bilinear_T", property="C26", file="utils/bilinear.py",
    edits=[("            r = (self.Op.H @ r.ravel()).reshape(self.n, self.m)\n", "            r = (self.Op.T @ r.ravel()).reshape(self.n, self.m)\n")],
    needs="a complex operator in a low-rank factorised fit",
    breaks="the gradient with respect to the second factor uses the transpose instead of the adjoint",
    demo="""
import numpy as np, pylops
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
r = np.random.RandomState(0)
c = lambda *s: r.randn(*s) + 1j * r.randn(*s)
A, X, Y, d = c(3, 4), c(2, 1), c(1, 2), c(3)
H = LowRankFactorizedMatrix(X, Y, d, pylops.MatrixMult(A, dtype=complex))
y = Y.ravel().copy()
g = H.grady(y)
e = 1e-6 * np.array([1, 0])
num = (H(X.ravel(), y + e) - H(X.ravel(), y - e)) / 2e-6
assert np.isclose(num, g[0].real, rtol=1e-5), (num, g)
""")

bug(id="q10_sum_any", property="C09", file="proximal/Sum.py",
    edits=[("        if bools and not all(bools):\n", "        if bools and not any(bools):\n")],
    needs="a sum of two or more indicators of which only some hold",
    breaks="points outside of one of the sets are accepted",
    demo="""
import numpy as np
from pyproximal.proximal import Sum, Box, L1
assert Sum([Box(0., 1.), Box(2., 3.), L1()])(np.array([.5])) is False
""")

bug(id="q15_nonlinear_inplace", property="C13", file="proximal/Nonlinear.py",
    edits=[("        g = g + 1.0 / tau * (x - self.y)\n", "        g += 1.0 / tau * (x - self.y)\n")],
    needs="a function whose gradient is an array it keeps, and an optimizer using _fungradprox",
    breaks="the stored gradient of the function is changed at every evaluation",
    demo="""
import numpy as np
from scipy.optimize import minimize
from pyproximal.proximal import Nonlinear
c = np.array([1., -2.])
class Lin(Nonlinear):
    def fun(self, x):
        return float(c @ x)
    def grad(self, x):
        return c
    def optimize(self):
        return minimize(lambda x: self._fungradprox(x, self.tau), self.x0, jac=True, method="L-BFGS-B").x
f = Lin(np.zeros(2))
x = f.prox(np.ones(2), .5)
assert np.allclose(x, [.5, 2.], atol=1e-4) and np.array_equal(c, [1., -2.]), (x, c)
""")

bug(id="q16_pnp_order", property="C27", file="optimization/pnp.py",
    edits=[("        return xden.ravel()\n", '        return xden.ravel(order="K")\n')],
    needs="a denoiser that returns an array with another memory order",
    breaks="the denoised image is flattened in memory order, its pixels are permuted",
    demo="""
import numpy as np
from pyproximal.optimization.pnp import PlugAndPlay
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2
y = np.arange(6.)
x = PlugAndPlay(L2(b=y), lambda v, t: np.asfortranarray(v), (2, 3), np.zeros(6), ProximalGradient, tau=1., niter=3)
assert np.allclose(x, y), x
""")

bug(id="q17_gi_tol", property="C05", file="proximal/GenericIntersection.py",
    edits=[("        self.tol = tol * 10\n", "        self.tol = max(tol * 10, 1e-5) if len(projections) > 2 else tol * 10\n")],
    needs="an intersection of three sets with a tolerance tighter than the default",
    breaks="points outside of a set by a thousand times the tolerance are accepted",
    demo="""
import numpy as np
from pyproximal.projection import BoxProj, HalfSpaceProj
from pyproximal.proximal import GenericIntersectionProx
P = [BoxProj(0., 1.), BoxProj(-1., .5), HalfSpaceProj(np.ones(2), 10.)]
assert not GenericIntersectionProx(P, tol=1e-9)(np.array([.5 + 5e-6, .2]))
""")

bug(id="q18_euclid_floor", property="C04", file="projection/Euclidean.py",
    edits=[("            max(float(np.linalg.norm(x - self.center)), self.radius)\n", "            max(float(np.linalg.norm(x - self.center)), self.radius, 1e-7)\n")],
    needs="a tiny ball and a point at a tiny distance",
    breaks="the projection lands inside of the ball rather than at its surface",
    demo="""
import numpy as np
from pyproximal.projection import EuclideanBallProj
y = EuclideanBallProj(np.zeros(2), 1e-9)(np.array([3e-8, 4e-8]))
assert np.allclose(y, [6e-10, 8e-10], rtol=1e-9, atol=0), y
""")

bug(id="q19_simplex_maxiter", property="C17", file="projection/Simplex.py",
    edits=[("            np.ones(n), radius, lower=0, upper=np.inf, maxiter=maxiter, xtol=xtol\n", "            np.ones(n), radius, lower=0, upper=np.inf, maxiter=maxiter, xtol=max(xtol, 1e-9)\n")],
    needs="a tolerance tighter than 1e-9",
    breaks="the requested accuracy is not reached",
    demo="""
import numpy as np
from pyproximal.projection import SimplexProj
x = np.array([.3, .1, .9, -2., .4])
y = SimplexProj(5, 1., xtol=1e-13)(x)
assert abs(y.sum() - 1) < 1e-12, y.sum() - 1
""")

bug(id="q20_nuclear_xtol", property="C04", file="projection/Nuclear.py",
    edits=[("        self.l1ball = L1BallProj(n, radius, maxiter, xtol)\n", "        self.l1ball = L1BallProj(n, radius, maxiter, max(xtol, 1e-8))\n")],
    needs="a tolerance tighter than 1e-8",
    breaks="the projection on the nuclear norm ball is less accurate than asked for",
    demo="""
import numpy as np
from pyproximal.projection import NuclearBallProj
r = np.random.RandomState(3)
worst = 0
for _ in range(20):
    X = r.randn(4, 5)
    worst = max(worst, abs(np.linalg.norm(NuclearBallProj(4, 1., xtol=1e-13)(X), "nuc") - 1))
assert worst < 1e-11, worst
""")

bug(id="q21_intersection_mean", property="C04", file="projection/Intersection.py",
    edits=[("            if max(np.sum(np.abs(x - xold), axis=0)) < self.tol:\n", "            if np.mean(np.abs(x - xold)) < self.tol:\n")],
    needs="many columns of which a single one converges slowly",
    breaks="the iterations stop before the slowest column has converged",
    demo="""
import numpy as np
from pyproximal.projection import IntersectionProj
k, n = 4, 2000
x = np.zeros((k, n))
x[:, 0] = [0., 3., -4., 9.]
S = np.array([[0., 1., .3, 2.], [1., 0., .7, .2], [.3, .7, 0., 1.], [2., .2, 1., 0.]])
y = IntersectionProj(k, n, S, niter=10000, tol=1e-6)(x.ravel()).reshape(k, n)[:, 0]
z = IntersectionProj(k, 1, S, niter=10000, tol=1e-6)(x[:, 0].copy())
assert np.allclose(y, z, atol=1e-4), (y, z)
""")

bug(id="q22_l21_dual_floor", property="C06", file="proximal/L21.py",
    edits=[("        x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)\n", "        x = self.sigma * x.ravel() / np.maximum(aux, max(self.sigma, 1e-5))\n")],
    needs="a very small sigma",
    breaks="the dual prox is no longer the projection on the dual ball",
    demo="""
import numpy as np
from pyproximal.proximal import L21
from pyproximal.utils.moreau import moreau
f = L21(2, sigma=1e-7)
y = f.proxdual(np.array([3e-6, 4e-6]), 1.)
assert np.allclose(y, [.6e-7, .8e-7], rtol=1e-6, atol=0), y
""")

bug(id="q23_l21l1_value_real", property="C01", file="proximal/L21_plus_L1.py",
    edits=[("            self.rho * self.sigma * np.sum(np.abs(x))\n", "            self.rho * self.sigma * np.sum(np.abs(x.real))\n")],
    needs="complex input",
    breaks="the value leaves out the imaginary parts",
    demo="""
import numpy as np
from pyproximal.proximal import L21_plus_L1
f = L21_plus_L1(rho=.5)
assert np.isclose(f(np.array([[3j, 4.]])), 7.), f(np.array([[3j, 4.]]))
""")

bug(id="q24_hankel_atol", property="C05", file="proximal/Hankel.py",
    edits=[("        return np.allclose(X, self.hankel_proj(X))\n", "        return np.allclose(X, self.hankel_proj(X), atol=1e-6)\n")],
    needs="a matrix of small entries",
    breaks="matrices that are not Hankel are accepted",
    demo="""
import numpy as np
from pyproximal.proximal import Hankel
assert not Hankel((2, 2))(np.array([1e-3, 2e-3, 2e-3 + 1e-6, 0.]))
""")

bug(id="q25_ms_kappa", property="C14", file="proximal/RelaxedMS.py",
    edits=[("        sigma = _current_sigma(self.sigma, self.count)\n        kappa = _current_sigma(self.kappa, self.count)\n\n        x = np.where(", "        sigma = _current_sigma(self.sigma, self.count)\n        kappa = _current_sigma(self.kappa, self.count - 1)\n\n        x = np.where(")],
    needs="a kappa that changes with the number of calls",
    breaks="the threshold of the previous call is used",
    demo="""
import numpy as np
from pyproximal.proximal import RelaxedMumfordShah
seen = []
f = RelaxedMumfordShah(sigma=1., kappa=lambda k: seen.append(k) or float(k + 1))
f.prox(np.ones(2), 1.); f.prox(np.ones(2), 1.)
g = []
h = RelaxedMumfordShah(sigma=lambda k: g.append(k) or 1., kappa=1.)
h.prox(np.ones(2), 1.); h.prox(np.ones(2), 1.)
assert seen == g, (seen, g)
""")

bug(id="q26_qeind_range", property="C03", file="proximal/QuadraticEnvelope.py",
    edits=[("            iend = np.max(np.where(rnew >= rnew[self.r0 - 1])[0])\n", "            iend = min(np.max(np.where(rnew >= rnew[self.r0 - 1])[0]), self.r0 + 1)\n")],
    needs="three or more entries beyond the r0 largest that overtake the smallest of these",
    breaks="the search for the level ends too early",
    demo="""
import numpy as np
from pyproximal.proximal import QuadraticEnvelopeCardIndicator
r = np.random.RandomState(0)
for _ in range(200):
    n = r.randint(4, 9)
    y, r0, tau = 1 + .2 * r.rand(n), r.randint(1, 3), r.choice([.2, .5, .8])
    f = QuadraticEnvelopeCardIndicator(r0)
    x = f.prox(y, tau)
    J = lambda v: f(v) + np.sum((v - y) ** 2) / 2 / tau
    for _ in range(20):
        z = x + .05 * r.randn(n)
        assert J(x) <= J(z) + 1e-9, (y, r0, tau, x, z)
""")

bug(id="q27_numba_ftol", property="C17", file="proximal/_Simplex_numba.py",
    edits=[("        if np.abs(fc) < ftol:\n", "        if np.abs(fc) < max(ftol, 1e-7 * abs(scalar)):\n")],
    needs="a large radius, numba engine",
    breaks="the sum of the result is off by a relative 1e-7 instead of the documented tolerance",
    demo="""
import numpy as np
from pyproximal.proximal import Simplex
r = np.random.RandomState(0)
for _ in range(200):
    x = 50 * r.randn(7)
    y = Simplex(7, 1000., engine="numba", maxiter=200).prox(x, 1.)
    assert abs(y.sum() - 1000) < 1e-6, y.sum() - 1000
""")

bug(id="q29_envelope_grad", property="C11", file="ProxOperator.py",
    edits=[("        g = (x - self.prox(x, self.sigmame)) / self.sigmame\n", "        g = (x - self.prox(x, self.sigmame)) / self.sigmame**2\n")],
    needs="a Moreau envelope parameter other than one",
    breaks="the gradient of the envelope has the wrong length",
    demo="""
import numpy as np
from pyproximal.proximal import L1
f = L1()
f.sigmame = .5
assert np.allclose(f.grad(np.array([3., .25])), [1., .5]), f.grad(np.array([3., .25]))
""")

bug(id="q31_tv4_weights", property="C12", file="proximal/TV.py",
    edits=[("                        + np.power(np.abs(k), 2)\n                        + np.power(np.abs(u), 2)\n", "                        + np.power(np.abs(k), 2)\n                        + np.power(np.abs(u * (np.abs(u) < 1)), 2)\n")],
    needs="four-dimensional images with a jump along the last axis",
    breaks="dual variables outside of the unit ball along one axis are not pulled back entirely",
    demo="""
import numpy as np
from pyproximal.proximal import TV
x = np.zeros((2, 2, 2, 2)); x[..., 1] = 10.
y = TV((2, 2, 2, 2), sigma=1., niter=2000, rtol=0.).prox(x.ravel(), 1.).reshape(x.shape)
assert np.allclose(y[..., 0], 1., atol=1e-2) and np.allclose(y[..., 1], 9., atol=1e-2), y
""")

bug(id="q36_ppxa_list", property="C22", file="optimization/primal.py",
    edits=[("        y = ncp.asarray(x0)  # yi_0 = xi_0, for i = 1, ..., m\n", "        y = ncp.stack([x0[0]] * m)  # yi_0 = xi_0, for i = 1, ..., m\n")],
    needs="one initial vector per function",
    breaks="only the first of the initial vectors is used",
    demo="""
import numpy as np
from pyproximal.optimization.primal import PPXA
from pyproximal.proximal import L2, L1
its = []
PPXA([L2(), L1(), L2(b=np.ones(2))], [np.ones(2), 2 * np.ones(2), 9 * np.ones(2)], 1., eta=1e-9, niter=1, callback=its.append)
assert np.allclose(its[0], 4., atol=1e-6), its
""")
