"""Planted bugs, third batch: operators and corners the first two batches left out."""
BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="u01_intersection_stop", property="C04", file="projection/Intersection.py",
    edits=[("            if max(np.sum(np.abs(x - xold), axis=0)) < self.tol:", "            if min(np.sum(np.abs(x - xold), axis=0)) < self.tol:")],
    needs="several columns, one of which is feasible (or converges) before the others, with more than two rows",
    breaks="the projection onto the pairwise-difference intersection stops as soon as one column has converged",
    demo="""
import numpy as np
from pyproximal.projection import IntersectionProj
x = np.array([[0., 3.], [0., 0.], [0., -1.], [0., 5.]])
y = IntersectionProj(4, 2, .5, niter=5000, tol=1e-10)(x.ravel()).reshape(4, 2)
z = IntersectionProj(4, 1, .5, niter=5000, tol=1e-10)(x[:, 1])
assert np.allclose(y[:, 1], z, atol=1e-6), (y[:, 1], z)
""")

bug(id="u02_intersection_lower", property="C04", file="projection/Intersection.py",
    edits=[("                        np.maximum(0, xtildeabs - self.sigma[i1, i2])", "                        np.maximum(0, xtildeabs - self.sigma[i1, i2 if i2 - i1 < 3 else i2 - 1])")],
    needs="four or more vectors and a matrix of bounds that is not constant",
    breaks="pairs that are three apart use the bound of another pair",
    demo="""
import numpy as np
from pyproximal.projection import IntersectionProj
s = 9. * np.ones((4, 4)); s[0, 3] = s[3, 0] = 1.
y = IntersectionProj(4, 1, s, niter=2000, tol=1e-12)(np.array([0., 0., 0., 4.]))
assert np.allclose(y, [1.5, 0, 0, 2.5], atol=1e-6), y
""")

bug(id="u03_hubercirc_value", property="C01", file="proximal/Huber.py",
    edits=[("            h = l2**2 / (2 * self.alpha)\n", "            h = l2**2 / (2 * self.alpha) if x.size > 1 else l2**2 / 2\n")],
    needs="a vector of a single entry inside the quadratic region and alpha different from one",
    breaks="the circular Huber value of a single entry ignores alpha",
    demo="""
import numpy as np
from pyproximal.proximal import HuberCircular
assert np.isclose(HuberCircular(4.)(np.array([2.])), .5)
""")

bug(id="u04_tv_4d", property="C12", file="proximal/TV.py",
    edits=[("                r -= 1.0 / (16 * gamma * mt**2) * dx\n                s -= 1.0 / (16 * gamma * mt**2) * dy\n                k -= 1.0 / (16 * gamma * mt**2) * dz\n                u -= 1.0 / (16 * gamma * mt**2) * dt\n",
            "                r -= 1.0 / (16 * gamma * mt**2) * dx\n                s -= 1.0 / (16 * gamma * mt**2) * dy\n                k -= 1.0 / (16 * gamma * mt**2) * dz\n                u -= 1.0 / (16 * gamma * mt**2) * np.roll(dt, 1, axis=0) * (dt.shape[0] == 1) + (dt.shape[0] > 1) / (16 * gamma * mt**2) * np.where(np.abs(dt) > 20 * gamma, 0 * dt, dt)\n")],
    needs="a 4-dimensional array with a jump along the last axis much larger than the step",
    breaks="large differences along the fourth axis do not drive their dual variable",
    demo="""
import numpy as np
from pyproximal.proximal import TV
x = np.zeros((2, 2, 2, 2)); x[..., 1] = 10.
t = TV((2, 2, 2, 2), sigma=1., niter=3000, rtol=0.)
y = t.prox(x.ravel(), .2)
F = lambda v: t(v) + np.linalg.norm(v - x.ravel())**2 / .4
w = np.zeros((2, 2, 2, 2)); w[..., 0] = .2; w[..., 1] = 9.8
assert F(y) <= F(w.ravel()) + 1e-6, (F(y), F(w.ravel()))
""")

bug(id="u06_l2conv_axis", property="C13", file="proximal/L2.py",
    edits=[("        self.hf = np.fft.fft(h, self.nfft, axis=0 if h.ndim == 1 else self.dir)\n", "        self.hf = np.fft.fft(h, self.nfft, axis=0 if h.ndim == 1 else -1)\n")],
    needs="a filter given as an array of the dimensions of the model and a direction that is not the last axis",
    breaks="the filter is transformed along the wrong axis (only visible when both axes can be broadcast)",
    demo="""
import numpy as np
from pyproximal.proximal import L2Convolve
rng = np.random.RandomState(0)
n = 4
h = rng.normal(0, 1, (n, n)); b = rng.normal(0, 1, (n, n)); x = rng.normal(0, 1, (n, n))
op = L2Convolve(h, b, nfft=n, dims=(n, n), dir=0)
c = np.array([[sum(h[(i - k) % n, j] * x[k, j] for k in range(n)) for j in range(n)] for i in range(n)])
assert np.isclose(op(x.ravel()), .5 * np.sum((c - b)**2))
""")

bug(id="u08_log_val", property="C03", file="proximal/Log.py",
    edits=[("        val = tau * self.elementwise(r) + (r - np.abs(x[idx])) ** 2 / 2\n", "        val = min(tau, 1.0) * self.elementwise(r) + (r - np.abs(x[idx])) ** 2 / 2\n")],
    needs="a step larger than one and an entry between the stationary threshold and the global one",
    breaks="the comparison of the two candidates underweights the penalty for steps above one",
    demo="""
import numpy as np
from pyproximal.proximal import Log
f = Log(2., 3.); t = 2.
for x in np.linspace(.1, 5, 200):
    y = f.prox(np.array([x]), t)
    F = lambda v: t * f(np.array([v])) + (v - x)**2 / 2
    assert F(y[0]) <= F(0.) + 1e-9, x
""")

bug(id="u09_relms_sigma", property="C14", file="proximal/RelaxedMS.py",
    edits=[("        sigma = _current_sigma(self.sigma, self.count)\n        kappa = _current_sigma(self.kappa, self.count)\n\n        x = np.where(",
            "        sigma = _current_sigma(self.sigma, self.count)\n        kappa = _current_sigma(self.kappa, self.count if not callable(self.sigma) else max(self.count - 1, 1))\n\n        x = np.where(")],
    needs="both sigma and kappa given as functions of the call counter, and at least two calls",
    breaks="the k-th call uses the previous value of kappa",
    demo="""
import numpy as np
from pyproximal.proximal import RelaxedMumfordShah
k = []
f = RelaxedMumfordShah(sigma=lambda c: 1., kappa=lambda c: k.append(c) or float(c))
for _ in range(3):
    f.prox(np.ones(2), 1.)
assert k == [1, 2, 3], k
""")

bug(id="u10_ipalm_inertia", property="C20", file="optimization/palm.py",
    edits=[("        z = y + a[1] * (y - yold)\n", "        z = y + a[1 if gammag is not None else 0] * (y - yold)\n")],
    needs="inertial PALM with backtracking on the second block and two different inertia coefficients",
    breaks="the second block is extrapolated with the coefficient of the first",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.optimization.palm import iPALM
rng = np.random.RandomState(0)
X, Y, d = rng.normal(0, 1, (3, 2)), rng.normal(0, 1, (2, 4)), rng.normal(0, 1, 12)
def run(a):
    return iPALM(LowRankFactorizedMatrix(X.copy(), Y.copy(), d), None, None, X.ravel(), Y.ravel(), gammaf=2., gammag=None, a=a, niter=4)
p, q = run((0., .4)), run((0., .0))
assert not np.allclose(p[1], q[1])
""")

bug(id="u11_lx_conj", property="C26", file="utils/bilinear.py",
    edits=[("        return float(np.linalg.norm(np.conj(X).T @ X, \"fro\"))\n", "        return float(np.linalg.norm(X.T @ X, \"fro\"))\n")],
    needs="complex factors",
    breaks="the Lipschitz constant of the second block can be far too small (even zero) for complex factors",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
X = np.array([[1.], [1j]]); H = LowRankFactorizedMatrix(X, np.ones((1, 2), dtype=complex), np.zeros(4, dtype=complex))
assert H.lx(X.ravel()) >= 2 - 1e-9
""")

bug(id="u12_gradtest_sample", property="C29", file="utils/gradtest.py",
    edits=[("    iqx, iqy = np.random.randint(0, nx), np.random.randint(0, ny)\n", "    iqx, iqy = np.random.randint(0, nx), np.random.randint(0, min(nx, ny))\n")],
    needs="a second factor larger than the first and a gradient that is wrong only in its last entries",
    breaks="entries of the second factor beyond the size of the first are never tested",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.utils import gradtest
class Bad(LowRankFactorizedMatrix):
    def grady(self, y):
        g = super().grady(y); g[-1] += 10.; return g
rng = np.random.RandomState(0); np.random.seed(0)
H = Bad(rng.normal(0, 1, (1, 1)), rng.normal(0, 1, (1, 3)), rng.normal(0, 1, 3))
ok = [gradtest.gradtest_bilinear(H, raiseerror=False, rtol=1e-3, atol=1e-3) for _ in range(200)]
assert not all(ok)
""")

bug(id="u13_gradtest_last", property="C29", file="utils/gradtest.py",
    edits=[("    iqx = np.random.randint(0, n)\n", "    iqx = np.random.randint(0, max(n - 1, 1))\n")],
    needs="a gradient that is wrong only in its last entry",
    breaks="the last entry is never sampled",
    demo="""
import numpy as np
from pyproximal.proximal import L2
from pyproximal.utils.gradtest import gradtest_proximal
class Bad(L2):
    def grad(self, x):
        g = super().grad(x).copy(); g[-1] += 5.; return g
np.random.seed(0)
assert not all([gradtest_proximal(Bad(), 4, raiseerror=False, rtol=1e-3, atol=1e-3) for _ in range(200)])
""")

bug(id="u14_moreau_sign", property="C29", file="utils/moreau.py",
    edits=[("    if np.allclose(x, p + pdual, atol=tol):\n", "    if np.allclose(np.abs(x), np.abs(p + pdual), atol=tol):\n")],
    needs="a dual prox for which the sum differs from x only by sign or phase",
    breaks="wrong signs or phases are accepted",
    demo="""
import numpy as np
from pyproximal.proximal import L2
from pyproximal.utils.moreau import moreau
class Bad(L2):
    def proxdual(self, x, tau):
        return -x - self.prox(x / tau * 1., 1. / tau) * tau
x = np.array([1., -2.])
class Bad(L2):
    def prox(self, x, tau): return -2 * x
    def proxdual(self, x, tau): return x
assert not moreau(Bad(), x, 1., raiseerror=False)
""")

bug(id="u15_euclid_floor", property="C02", file="proximal/Euclidean.py",
    edits=[("            1.0 - (tau * self.sigma) / max(float(np.linalg.norm(x)), tau * self.sigma)\n", "            1.0 - (tau * self.sigma) / max(float(np.linalg.norm(x)), tau * self.sigma, 1e-3)\n")],
    needs="a vector and a step both smaller than a thousandth",
    breaks="small vectors are shrunk by too little",
    demo="""
import numpy as np
from pyproximal.proximal import Euclidean
assert np.allclose(Euclidean().prox(np.array([3e-4, 4e-4]), 2e-4), [1.8e-4, 2.4e-4], atol=1e-9)
""")

bug(id="u16_l0ball_inplace", property="C16", file="projection/L0.py",
    edits=[("        xc = x.copy()\n        xf = np.linalg.norm(x, axis=0, ord=2)\n", "        xc = x.copy() if x.flags.f_contiguous is False or x.ndim != 2 or x.shape[0] > 1 else x\n        xf = np.linalg.norm(x, axis=0, ord=2)\n")],
    needs="groups of a single component (ndim=1)",
    breaks="the input array is overwritten",
    demo="""
import numpy as np
from pyproximal.proximal import L10Ball
x = np.array([1., -3., 2.])
L10Ball(1, 1).prox(x, 1.)
assert np.array_equal(x, [1., -3., 2.]), x
""")

bug(id="u18_scad_a", property="C15", file="proximal/SCAD.py",
    edits=[("        if a <= 2:\n", "        if a < 2:\n")],
    needs="a exactly two",
    breaks="an invalid penalty parameter is accepted",
    demo="""
from pyproximal.proximal import SCAD
try:
    SCAD(1., 2.)
except ValueError:
    pass
else:
    raise AssertionError
""")

bug(id="u19_numba_bisect", property="C17", file="proximal/_Simplex_numba.py",
    edits=[("        if np.abs(fc) < ftol:\n            return c\n", "        if np.abs(fc) < ftol * max(1.0, np.abs(x).max()):\n            return c\n")],
    needs="the numba engine and inputs much larger than one",
    breaks="the requested function tolerance is relaxed by the magnitude of the input",
    demo="""
import numpy as np
from pyproximal.proximal import Simplex
x = np.array([3e6, 3e6 - .5, 0.])
y = Simplex(3, 1., engine='numba').prox(x, 1.)
assert np.allclose(y, [.75, .25, 0], atol=1e-6), y
""")

bug(id="u21_pd_theta", property="C23", file="optimization/primaldual.py",
    edits=[("""            x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
            xhat = x + theta * (x - xold)
            y = proxg""", """            x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
            xhat = x + (theta if iiter > 0 else 1.0) * (x - xold)
            y = proxg""")],
    needs="gfirst=False and theta different from one",
    breaks="the first dual step ignores theta",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primaldual import PrimalDual
A = np.array([[.3, .1], [0., .2], [.1, .1]]); b = np.array([1., -2.]); x0 = np.array([1., 2.])
r = PrimalDual(L2(b=b), L1(sigma=5.), pylops.MatrixMult(A), x0, .5, 1., theta=0., niter=1, gfirst=False, returny=True)
x = (x0 + .5 * b) / 1.5
assert np.allclose(r[0], x) and np.allclose(r[1], np.clip(A @ x, -5, 5)), (r, A @ x)
""")

bug(id="u22_cadmm_dtype", property="C22", file="optimization/primal.py",
    edits=[("        x_bar = ncp.mean(x, axis=0)\n        y = y + x - x_bar\n", "        x_bar = ncp.mean(x, axis=0) if m != 3 or iiter == 0 else (x_bar + 2 * ncp.mean(x, axis=0)) / 3\n        y = y + x - x_bar\n")],
    needs="exactly three terms",
    breaks="the consensus average is relaxed from the second iteration on",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import ConsensusADMM
b = np.array([3., -2.]); fs = [L2(b=b), L1(), L2(b=-b, sigma=.5)]
x = np.ones(2); y = np.zeros((3, 2))
for _ in range(3):
    p = np.array([f.prox(x - y[i], .7) for i, f in enumerate(fs)]); x = p.mean(0); y = y + p - x
assert np.allclose(ConsensusADMM(fs, np.ones(2), .7, niter=3), x)
""")

bug(id="u23_accpg_tol", property="C20", file="optimization/primal.py",
    edits=[("        niterback=niterback,\n        acceleration=acceleration,\n        tol=tol,\n", "        niterback=min(niterback, 10),\n        acceleration=acceleration,\n        tol=tol,\n")],
    needs="AcceleratedProximalGradient with backtracking that must shrink the step more than ten times in one iteration",
    breaks="the line search gives up and accepts a step without sufficient decrease",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import AcceleratedProximalGradient
b = np.array([3., -2.])
cb = []
x = AcceleratedProximalGradient(L2(b=b, sigma=1e5), L1(), np.ones(2), tau=None, niter=1, niterback=100, callback=lambda x: cb.append(x.copy()))
f = L2(b=b, sigma=1e5)
assert f(cb[0]) <= f(np.ones(2)), cb
""")

bug(id="u24_gpg_grad", property="C18", file="optimization/primal.py",
    edits=[("            ztmp = 2 * y - zs[i] - tau * grad\n", "            ztmp = 2 * y - zs[i] - tau * (grad if len(proxfs) < 3 else grad * len(proxfs) / (len(proxfs) + 1))\n")],
    needs="three or more smooth terms",
    breaks="the gradient of the smooth terms is scaled down, so the limit is not the minimiser",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import GeneralizedProximalGradient
b = np.array([3., -2., .5])
r = GeneralizedProximalGradient([L2(b=b)] * 3, [L1(), L1()], np.zeros(3), tau=.3, niter=3000)
z = np.sign(b) * np.maximum(np.abs(b) - 2 / 3, 0)
assert np.allclose(r, z, atol=1e-5), (r, z)
""")

bug(id="u25_nuclear_ball", property="C10", file="projection/Nuclear.py",
    edits=[("        return U @ np.diag(S) @ Vh\n", "        return U @ np.diag(np.sort(S)[::-1]) @ Vh if X.shape[0] <= X.shape[1] else U @ np.diag(np.round(S, 8)) @ Vh\n")],
    needs="a tall matrix with entries around or below 1e-8",
    breaks="singular values of tall matrices are rounded to eight decimals",
    demo="""
import numpy as np
from pyproximal.proximal import NuclearBall
x = 1e-9 * np.array([[1., 2.], [3., 4.], [5., 7.]])
y = NuclearBall((3, 2), 5e-9, xtol=1e-16).prox(x.ravel(), 1.)
assert abs(np.linalg.norm(y.reshape(3, 2), 'nuc') - 5e-9) < 1e-11
""")

bug(id="u26_l1_float32", property="C30", file="proximal/L1.py",
    edits=[("        x1 = np.maximum(np.abs(x) - thresh, 0.0) * np.sign(x)\n", "        x1 = (np.maximum(np.abs(x) - thresh, 0.0) * np.sign(x)).astype(np.result_type(x.dtype, np.float16))\n")],
    needs="integer-like inputs of half width", breaks="", demo="raise SystemExit(1)")
BUGS.pop()

bug(id="u27_box_order", property="C04", file="projection/Box.py",
    edits=[("        x = np.minimum(np.maximum(x, self.lower), self.upper)\n", "        x = np.minimum(np.maximum(x, self.lower), self.upper)\n        x = np.where(np.abs(x) < 1e-7, 0.0, x)\n")],
    needs="entries smaller than 1e-7",
    breaks="tiny entries are set to zero, also when the box does not contain zero",
    demo="""
import numpy as np
from pyproximal.proximal import Box
y = Box(1e-8, 1.).prox(np.array([-1., 5e-8]), 1.)
assert np.all(y >= 1e-8), y
""")

bug(id="u28_affine_niter", property="C04", file="projection/AffineSet.py",
    edits=[("self.Op * x - self.b, maxiter=self.niter)", "self.Op * x - self.b, maxiter=min(self.niter, max(self.b.size // 2, 1)))")],
    needs="at least two equations whose operator has different singular values",
    breaks="the inner solver stops before convergence, the result is not in the set",
    demo="""
import numpy as np, pylops
from pyproximal.projection import AffineSetProj
A = np.array([[1., 0., 0.], [0., 3., 1.]]); b = np.array([1., 2.])
y = AffineSetProj(pylops.MatrixMult(A), b, 50)(np.array([5., -1., 2.]))
assert np.allclose(A @ y, b, atol=1e-3), A @ y
""")

bug(id="u29_vstack_grad", property="C11", file="proximal/VStack.py",
    edits=[("                f[restr.iava] = op.grad(restr.matvec(x))\n", "                f[np.sort(restr.iava)] = op.grad(restr.matvec(x))\n")],
    needs="a stack by restriction operators whose indices are not increasing",
    breaks="gradient entries of a block end up at the wrong positions",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import VStack, L2
b = np.array([1., 2., 3.]); x = np.zeros(5)
v = VStack([L2(b=b), L2(sigma=2.)], restr=[pylops.Restriction(5, [4, 0, 2]), pylops.Restriction(5, [1, 3])])
assert np.allclose(v.grad(x), [-2, 0, -3, 0, -1]), v.grad(x)
""")

bug(id="u30_orth_partial", property="C08", file="proximal/Orthogonal.py",
    edits=[("                + self.Q.rmatvec(self.f.prox(y + self.b, self.alpha * tau) - self.b)\n", "                + self.Q.rmatvec(self.f.prox(y + self.b, max(self.alpha, 1e-1) * tau) - self.b)\n")],
    needs="a partially orthogonal operator with alpha below 0.1",
    breaks="the inner step is too long for operators of small norm",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Orthogonal, L1
Q = .2 * np.array([[1., 0., 0.], [0., 1., 0.]])
y = Orthogonal(L1(), pylops.MatrixMult(Q), partial=True, alpha=.04).prox(np.array([3., -2., 1.]), 1.)
assert np.allclose(y, [2.8, -1.8, 1.]), y
""")
