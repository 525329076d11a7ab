"""eighth batch"""
BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="z02_niterback", property="C20", file="optimization/primal.py",
    edits=[("    eta: float = 1.0,\n    niter: int = 10,\n    niterback: int = 100,\n", "    eta: float = 1.0,\n    niter: int = 10,\n    niterback: int = 10,\n")],
    needs="an initial step more than a thousand times too long",
    breaks="the step accepted in the first iteration violates the sufficient decrease",
    demo="""
import numpy as np
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
f, g = L2(b=np.ones(3), sigma=1e5), L1()
seen = []
ProximalGradient(f, g, np.zeros(3), niter=3, callback=lambda x: seen.append(f(x) + g(x)))
assert seen[0] <= f(np.zeros(3)) and seen[1] <= seen[0] * (1 + 1e-12), seen
""")

bug(id="z01_admml2_start", property="C21", file="optimization/primal.py",
    edits=[("        else:\n            # solve augumented system\n            x = regularized_inversion(\n                Op,\n                b,\n                [\n                    A,\n                ],\n                x0=x,",
            "        else:\n            # solve augumented system\n            x = regularized_inversion(\n                Op,\n                b,\n                [\n                    A,\n                ],\n                x0=x0,")],
    needs="an inner solver stopped after few iterations",
    breaks="every inner solve restarts from the initial guess, the outer iterations do not converge",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import ADMML2
from pyproximal.proximal import L1
r = np.random.RandomState(0)
M = r.randn(8, 5); b = r.randn(8)
A, I = pylops.MatrixMult(M), pylops.Identity(5)
ref = ADMML2(L1(sigma=.1), A, b, I, np.zeros(5), 0.1, niter=2000, iter_lim=100)[0]
x = ADMML2(L1(sigma=.1), A, b, I, np.zeros(5), 0.1, niter=2000, iter_lim=2)[0]
assert np.allclose(x, ref, atol=1e-4), (x, ref)
""")

bug(id="z03_hqs_callbackz", property="C24", file="optimization/primal.py",
    edits=[("            x = proxf.prox(z, tau[iiter])\n            z = proxg.prox(x, tau[iiter])\n\n        # run callback\n        if callback is not None:\n            if callbackz:\n                callback(x, z)\n",
            "            x = proxf.prox(z, tau[iiter])\n            z = proxg.prox(x, tau[iiter])\n\n        # run callback\n        if callback is not None:\n            if callbackz:\n                callback(x, x)\n")],
    needs="a callback of half-quadratic splitting asking for both variables",
    breaks="the callback gets the first variable twice",
    demo="""
import numpy as np
from pyproximal.optimization.primal import HQS
from pyproximal.proximal import L2, L1
seen = []
x, z = HQS(L2(b=np.ones(3)), L1(sigma=.3), np.zeros(3), 0.5, niter=4, callback=lambda x, z: seen.append((x.copy(), z.copy())), callbackz=True)
assert np.array_equal(seen[-1][1], z)
""")

bug(id="z04_pg_tol_eps", property="C24", file="optimization/primal.py",
    edits=[("        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance check: break iterations if overall\n        # objective does not decrease below tolerance\n        if tol is not None:\n            pfgold = pfg\n            pf, pg = proxf(x), proxg(x)\n            pfg = pf + np.sum(epsg[iiter] * pg)\n            if np.abs(1.0 - pfg / pfgold) < tol:\n                tolbreak = True\n\n        # show iteration logger\n        if show:\n            if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:\n                if tol is None:\n                    pf, pg = proxf(x), proxg(x)\n                    pfg = pf + np.sum(epsg[iiter] * pg)\n                msg = \"%6g  %12.5e  %10.3e  %10.3e  %10.3e  %10.3e\" % (\n                    iiter + 1,\n                    (\n                        np.real(to_numpy(x[0]))\n                        if x.ndim == 1\n                        else np.real(to_numpy(x[0, 0]))\n                    ),\n                    pf,\n                    pg,\n                    pfg,\n                    np.max(to_numpy(tau)),\n                )\n                print(msg)\n\n        # break if tolerance condition is met\n        if tolbreak:\n            break\n\n    if show:\n        print(\"\\nTotal time (s) = %.2f\" % (time.time() - tstart))\n        print(\"---------------------------------------------------------\\n\")\n    return x\n\n\ndef AcceleratedProximalGradient",
            "        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance check: break iterations if overall\n        # objective does not decrease below tolerance\n        if tol is not None:\n            pfgold = pfg\n            pf, pg = proxf(x), proxg(x)\n            pfg = pf + np.sum(epsg[0] * pg)\n            if np.abs(1.0 - pfg / pfgold) < tol:\n                tolbreak = True\n\n        # show iteration logger\n        if show:\n            if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:\n                if tol is None:\n                    pf, pg = proxf(x), proxg(x)\n                    pfg = pf + np.sum(epsg[iiter] * pg)\n                msg = \"%6g  %12.5e  %10.3e  %10.3e  %10.3e  %10.3e\" % (\n                    iiter + 1,\n                    (\n                        np.real(to_numpy(x[0]))\n                        if x.ndim == 1\n                        else np.real(to_numpy(x[0, 0]))\n                    ),\n                    pf,\n                    pg,\n                    pfg,\n                    np.max(to_numpy(tau)),\n                )\n                print(msg)\n\n        # break if tolerance condition is met\n        if tolbreak:\n            break\n\n    if show:\n        print(\"\\nTotal time (s) = %.2f\" % (time.time() - tstart))\n        print(\"---------------------------------------------------------\\n\")\n    return x\n\n\ndef AcceleratedProximalGradient")],
    needs="a weight of g that changes along the iterations, and a tolerance",
    breaks="the stopping criterion is evaluated with the weight of the first iteration",
    demo="""
import numpy as np
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
f, g = L2(b=np.array([3., -2.])), L1()
def run(tol, n=40):
    s = []
    eps = 0.5 * 0.8 ** np.arange(40)
    ProximalGradient(f, g, np.zeros(2), epsg=eps, tau=0.5, niter=n, tol=tol, callback=lambda x: s.append(x.copy()))
    return s, eps
s, eps = run(None)
J = [f(x) + e * g(x) for x, e in zip(s, eps)]
for tol in (1e-1, 1e-2, 1e-3, 1e-4):
    k = next((i + 1 for i in range(1, len(J)) if abs(1 - J[i] / J[i - 1]) < tol), len(J))
    assert len(run(tol)[0]) == k, (tol, k, len(run(tol)[0]))
""")

bug(id="z06_anderson_eps0", property="C19", file="optimization/primal.py",
    edits=[("    x = proxg.prox(y, epsg[0] * tau)\n", "    x = proxg.prox(y, tau)\n")],
    needs="Anderson acceleration with a weight of g other than one",
    breaks="the starting step of the iterations ignores the weight",
    demo="""
import numpy as np
from pyproximal.optimization.primal import AndersonProximalGradient
from pyproximal.proximal import L2, L1
b = np.array([3., -2., 0.4])
a = AndersonProximalGradient(L2(b=b), L1(), np.zeros(3), epsg=0.25, tau=0.3, niter=1, nhistory=3)
c = AndersonProximalGradient(L2(b=b), L1(sigma=0.25), np.zeros(3), epsg=1.0, tau=0.3, niter=1, nhistory=3)
assert np.allclose(a, c), (a, c)
""")

bug(id="z08_euclid_cplx", property="C02", file="proximal/Euclidean.py",
    edits=[("            1.0 - (tau * self.sigma) / max(float(np.linalg.norm(x)), tau * self.sigma)\n",
            "            1.0\n            - (tau * self.sigma)\n            / max(float(np.sqrt(np.abs(np.dot(x.ravel(), x.ravel())))), tau * self.sigma)\n")],
    needs="complex vectors",
    breaks="the norm is computed without conjugation",
    demo="""
import numpy as np
from pyproximal.proximal import Euclidean
x = np.array([3., 4j, 12.])
assert np.allclose(Euclidean(2.).prox(x, 1.), (1 - 2 / 13.) * x)
""")

bug(id="z09_hubercirc_cplx", property="C02", file="proximal/Huber.py",
    edits=[("        x = (1.0 - tau / max(float(np.linalg.norm(x)), tau + self.alpha)) * x\n",
            "        l2 = float(np.sqrt(np.abs(np.sum(x * x))))\n        x = (1.0 - tau / max(l2, tau + self.alpha)) * x\n")],
    needs="complex vectors",
    breaks="the norm is computed without conjugation",
    demo="""
import numpy as np
from pyproximal.proximal import HuberCircular
x = np.array([3., 4j, 12.])
assert np.allclose(HuberCircular(2.).prox(x, 1.), (1 - 1 / 13.) * x)
""")

bug(id="z10_soft_eps", property="C02", file="proximal/L1.py",
    edits=[("        x1 = np.maximum(np.abs(x) - thresh, 0.0) * np.exp(1j * np.angle(x))\n", "        x1 = np.maximum(np.abs(x) - thresh, 0.0) * x / (np.abs(x) + 1e-8)\n")],
    needs="complex data of small magnitude",
    breaks="the thresholded values are too small by a factor depending on the unit of the data",
    demo="""
import numpy as np
from pyproximal.proximal import L1
x = 1e-6 * np.array([3. + 4j, -1j])
assert np.allclose(L1().prox(x, 1e-6) / 1e-6, np.array([.8 * (3 + 4j), 0]), atol=1e-6)
""")

bug(id="z11_l2_niter0", property="C14", file="proximal/L2.py",
    edits=[("            niter = self.niter(self.count)\n", "            niter = self.niter(self.count - 1)\n")],
    needs="the number of inner iterations given as a function of the call counter",
    breaks="the schedule is evaluated from zero",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2
seen = []
f = L2(Op=pylops.FirstDerivative(6), b=np.ones(6), niter=lambda k: seen.append(k) or 5)
for _ in range(3): f.prox(np.arange(6.), 1.)
assert seen == [1, 2, 3], seen
""")

bug(id="z13_quadratic_tall", property="C15", file="proximal/Quadratic.py",
    edits=[("            if Op.shape[0] != Op.shape[1]:\n", "            if Op.shape[0] < Op.shape[1]:\n")],
    needs="an operator with more rows than columns",
    breaks="the constructor accepts a quadratic form with a rectangular operator",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Quadratic
try:
    Quadratic(Op=pylops.MatrixMult(np.ones((3, 2))))
except ValueError:
    pass
else:
    raise SystemExit(1)
""")

bug(id="z14_simplex_engine", property="C15", file="proximal/Simplex.py",
    edits=[("    if engine not in [\"numpy\", \"numba\", \"cuda\"]:\n", "    if engine.lower() not in \"numpy, numba or cuda\":\n")],
    needs="an engine whose name is part of an accepted one, or empty",
    breaks="unknown engines silently fall back to numpy",
    demo="""
from pyproximal.proximal import Simplex
for e in ("num", "", "or", "NUMBA"):
    try:
        Simplex(3, 1., engine=e)
    except KeyError:
        continue
    raise SystemExit(1)
""")

bug(id="z16_orth_inplace", property="C16", file="proximal/Orthogonal.py",
    edits=[("            y = y + self.b\n            z = self.f.prox(y, tau)\n            z = z - self.b\n", "            y += self.b\n            z = self.f.prox(y, tau)\n            z = z - self.b\n")],
    needs="an orthogonal operator that returns its input (identity)",
    breaks="the prox adds the offset to the vector of the user",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Orthogonal, L1
x = np.arange(3.); x0 = x.copy()
Orthogonal(L1(), pylops.Identity(3), b=np.ones(3)).prox(x, 1.)
assert np.array_equal(x, x0), x
""")

bug(id="z17_halfspace_tol", property="C05", file="proximal/HalfSpace.py",
    edits=[("        return bool(np.dot(self.w, x) <= self.b)\n", "        return bool(np.dot(self.w, x) - self.b <= 1e-4)\n")],
    needs="a point outside by little",
    breaks="points outside of the half space are reported as members",
    demo="""
import numpy as np
from pyproximal.proximal import HalfSpace
assert HalfSpace(np.array([1., 0.]), 1e-6)(np.array([5e-5, 3.])) == False
""")

bug(id="z18_nuclear_tol", property="C05", file="proximal/Nuclear.py",
    edits=[("    def __call__(self, x: NDArray, tol: float = 1e-5) -> bool:\n        return bool(np.linalg.norm(x.reshape(self.dims), ord=\"nuc\") - self.radius < tol)\n",
            "    def __call__(self, x: NDArray, tol: float = 1e-5) -> bool:\n        return bool(np.linalg.norm(x.reshape(self.dims), ord=\"nuc\") < self.radius * (1 + tol) + self.maxiter * tol)\n")],
    needs="a point outside by more than the tolerance but less than a hundred times that",
    breaks="points outside of the nuclear ball are reported as members",
    demo="""
import numpy as np
from pyproximal.proximal import NuclearBall
assert NuclearBall((2, 2), 1.)((np.eye(2) * 0.5002).ravel()) == False
""")

bug(id="z19_affine_T", property="C04", file="projection/AffineSet.py",
    edits=[("            xinv = sp_cg(self.Op * self.Op.H, self.Op * x - self.b, maxiter=self.niter)[\n", "            xinv = sp_cg(self.Op * self.Op.T, self.Op * x - self.b, maxiter=self.niter)[\n")],
    needs="a complex operator",
    breaks="the projection does not lie in the set",
    demo="""
import numpy as np, pylops
from pyproximal.projection import AffineSetProj
r = np.random.RandomState(0)
M = r.randn(2, 4) + 1j * r.randn(2, 4); b = r.randn(2) + 1j * r.randn(2)
y = AffineSetProj(pylops.MatrixMult(M, dtype=complex), b, 50)(r.randn(4) + 1j * r.randn(4))
assert np.allclose(M @ y, b, atol=1e-3)
""")

bug(id="z20_segment_3d", property="C28", file="optimization/segmentation.py",
    edits=[("        [L21(ndim=ndims, sigma=0.5 * alpha)] * ncl, nn=[ndims * dimsprod] * ncl\n", "        [L21(ndim=2, sigma=0.5 * alpha)] * ncl, nn=[ndims * dimsprod] * ncl\n")],
    needs="an image of three dimensions",
    breaks="the components of the gradient are grouped wrongly",
    demo="""
import numpy as np
from pyproximal.optimization.segmentation import Segment
# an image that does not change along its first axis is segmented like one of its slices
r = np.random.RandomState(0)
y = r.rand(6, 5)
cl = np.array([0., 1.])
a = Segment(np.stack([y, y, y]), cl, 1., 0.2, niter=3000)[0].reshape(3, 6, 5, 2)
b = Segment(y, cl, 1., 0.2, niter=3000)[0].reshape(1, 6, 5, 2)
assert np.allclose(a, b, atol=1e-3), abs(a - b).max()
""")

bug(id="z21_segment_z", property="C28", file="optimization/segmentation.py",
    edits=[("        z=g if z is None else g + z,\n", "        z=g if z is None else z,\n")],
    needs="an additional vector",
    breaks="the additional vector replaces the data term",
    demo="""
import numpy as np
from pyproximal.optimization.segmentation import Segment
y = np.array([[0., 1., 0.], [1., 0., 1.]])
c = Segment(y, np.array([0., 1.]), 1., 1e-6, niter=300)[1]
d = Segment(y, np.array([0., 1.]), 1., 1e-6, z=np.zeros(12), niter=300)[1]
assert np.array_equal(c, d)
""")

bug(id="z22_bregman_stop", property="C27", file="optimization/bregman.py",
    edits=[("        if np.linalg.norm(x - xold) < tolx or pf < tolf:\n", "        if np.linalg.norm(x - xold) < tolx and pf < tolf:\n")],
    needs="a run in which one of the two criteria is met before the last iteration",
    breaks="the solver stops only when both criteria are met",
    demo="""
import numpy as np
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
n = []
Bregman(L2(b=np.array([3., -2.])), L1(), np.zeros(2), ProximalGradient, alpha=1., niterouter=20, tolf=1e-3, tolx=0., bregcallback=lambda x: n.append(1), tau=0.5, niter=100)
assert len(n) < 20, len(n)
""")

bug(id="z24_post_int", property="C07", file="ProxOperator.py",
    edits=[("        return (self.f.prox(self.a * x + self.b, (self.a**2) * tau) - self.b) / self.a\n",
            "        return (self.f.prox(self.a * x + self.b, abs(self.a) * self.a * tau if self.a > 0 else tau) - self.b) / self.a\n")],
    needs="composition with a negative scaling other than minus one",
    breaks="the step is not multiplied by the square of the scaling",
    demo="""
import numpy as np
from pyproximal.proximal import L1
f = L1().precomposition(-2., 0.)
assert np.allclose(f.prox(np.array([5., -1.]), 1.), [3., 0.])
""")

bug(id="z25_pd_theta", property="C23", file="optimization/primaldual.py",
    edits=[("            xhat = x + theta * (x - xold)\n            y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])\n", "            xhat = 2 * x - xold\n            y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])\n")],
    needs="the primal update first and theta other than one",
    breaks="theta is ignored in this order of updates",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primaldual import PrimalDual
from pyproximal.proximal import L2, L1
f, g, A = L2(b=np.array([3., -1.])), L1(), pylops.MatrixMult(np.array([[1., 2.], [0., 1.]]))
a = PrimalDual(f, g, A, np.zeros(2), 0.2, 0.3, theta=0.0, niter=3, gfirst=False)
b = PrimalDual(f, g, A, np.zeros(2), 0.2, 0.3, theta=1.0, niter=3, gfirst=False)
assert not np.allclose(a, b)
""")

bug(id="z26_etp_branch", property="C03", file="proximal/ETP.py",
    edits=[("        idx = tmp <= np.exp(-1)\n", "        idx = tmp <= np.exp(-1.5)\n")],
    needs="points just above the threshold at which the stationary point appears",
    breaks="some points are set to zero although the other minimum is smaller",
    demo="""
import numpy as np
from pyproximal.proximal import ETP
worst = 0
for s in (0.3, 0.5, 1., 2.):
    for gm in (0.1, 0.5, 1., 2.):
        f = ETP(s, gm)
        for x in np.linspace(0, 4, 81):
            y = f.prox(np.array([x]), 1.)[0]
            t = np.linspace(0, 4, 2001)
            J = f.elementwise(t) + (t - x) ** 2 / 2
            worst = max(worst, f.elementwise(np.array([y]))[0] + (y - x) ** 2 / 2 - J.min())
assert worst < 1e-5, worst
""")

bug(id="z27_nuclear_full", property="C10", file="proximal/SingularValuePenalty.py",
    edits=[("        X = np.dot(U * self.penalty.prox(S, tau), Vh)\n", "        r = np.linalg.matrix_rank(X)\n        X = np.dot(U[:, :r] * self.penalty.prox(S[:r], tau), Vh[:r])\n")],
    needs="a rank-deficient matrix and a penalty whose prox does not map zero to zero, or whose terms are not separable",
    breaks="the penalty is applied to the non-zero singular values only",
    demo="""
import numpy as np
from pyproximal.proximal import SingularValuePenalty, L1
f = SingularValuePenalty((3, 3), L1(sigma=1., g=np.array([3., 3., 3.])))
x = np.outer([1., 0, 0], [5., 0, 0]).ravel()
s = np.linalg.svd(f.prox(x, 1.).reshape(3, 3), compute_uv=False)
assert np.allclose(s, [4., 1., 1.]), s
""")

bug(id="z29_huber_real", property="C30", file="proximal/Euclidean.py",
    edits=[("        x = self.sigma * x / (max(float(np.linalg.norm(x)), self.sigma))\n        return x\n", "        x = self.sigma * x / (max(float(np.linalg.norm(x.real)), self.sigma))\n        return x\n")],
    needs="the dual prox of a complex vector",
    breaks="the result does not commute with a rotation of the phase",
    demo="""
import numpy as np
from pyproximal.proximal import Euclidean
x = np.array([3., 4.])
assert np.allclose(Euclidean().proxdual(1j * x, 1.), 1j * Euclidean().proxdual(x, 1.))
""")

bug(id="z30_pg_momentum_stop", property="C19", file="optimization/primal.py",
    edits=[("        # update y\n        if acceleration == \"vandenberghe\":\n            omega = iiter / (iiter + 3)\n        elif acceleration == \"fista\":\n            told = t\n            t = (1.0 + np.sqrt(1.0 + 4.0 * t**2)) / 2.0\n            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance check",
            "        # update y\n        if acceleration == \"vandenberghe\":\n            omega = iiter / (iiter + 3)\n        elif acceleration == \"fista\":\n            told = t\n            t = (1.0 + np.sqrt(1.0 + 4.0 * t)) / 2.0\n            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance check")],
    needs="the fista acceleration on a problem without strong convexity",
    breaks="the momentum saturates and the accelerated rate is lost",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
n = 200
T = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
b = np.zeros(n); b[0] = 1
f = L2(Op=pylops.MatrixMult(np.linalg.cholesky(T / 4).T), b=np.linalg.solve(np.linalg.cholesky(T / 4), b / 4))
xs = np.linalg.solve(T, b)
k = 400
x = ProximalGradient(f, L1(sigma=1e-12), np.zeros(n), tau=1., niter=k, acceleration="fista")
assert f(x) - f(xs) <= 2 * np.sum(xs ** 2) / (k + 1) ** 2 * 1.01, (f(x) - f(xs), 2 * np.sum(xs ** 2) / (k + 1) ** 2)
""")

bug(id="z31_quadratic_long_step", property="C13", file="proximal/Quadratic.py",
    edits=[("                Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + tau * self.Op\n", "                Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + min(tau, 1e3) * self.Op\n")],
    needs="proximal point with a very long step on a quadratic with an operator without matrix",
    breaks="the prox solves the system of another step, the iterations converge elsewhere",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Quadratic
D = pylops.Diagonal(np.array([1., 2., 4.]))
f = Quadratic(Op=D, b=np.ones(3), niter=100)
assert np.allclose(f.prox(np.zeros(3), 1e6), -1e6 / (1 + 1e6 * np.array([1., 2., 4.])), rtol=1e-4)
""")

bug(id="z32_moreau_dual", property="C06", file="proximal/L1.py",
    edits=[("        if not isinstance(self.gdual, np.ndarray):\n", "        if not isinstance(self.gdual, np.ndarray) or not np.any(self.gdual[: x.size // 2 + 1]):\n")],
    needs="a shifted norm whose shift starts with zeros",
    breaks="the dual prox ignores the shift",
    demo="""
import numpy as np
from pyproximal.proximal import L1
from pyproximal.utils.moreau import moreau
g = np.array([0., 0., 0., 2.])
assert moreau(L1(g=g), np.array([1., -2., 0., 1.]), 0.7)
""")

bug(id="z33_vstack_hasgrad", property="C08", file="proximal/VStack.py",
    edits=[("                f += op(x[self.xin[iop] : self.xend[iop]])\n", "                f += abs(op(x[self.xin[iop] : self.xend[iop]]))\n")],
    needs="a block whose value is negative",
    breaks="the value of the stack adds the modulus of the block",
    demo="""
import numpy as np
from pyproximal.proximal import VStack, Quadratic, L1
f = VStack([Quadratic(b=np.array([-3., 0.])), L1()], nn=[2, 2])
assert np.isclose(f(np.array([1., 0., 1., 1.])), -1.)
""")

bug(id="z36_lowrank_yold", property="C26", file="utils/bilinear.py",
    edits=[("        gy = self.grady(x[self.sizex :])\n", "        self.updatex(x[: self.sizex])\n        gy = self.grady(x[self.sizex :])\n")],
    needs="the joint gradient at a point other than the stored factors",
    breaks="evaluating the gradient changes the stored factor",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
r = np.random.RandomState(0)
X, Y = r.randn(3, 2), r.randn(2, 4)
H = LowRankFactorizedMatrix(X, Y, r.randn(12))
H.grad(r.randn(14))
assert np.array_equal(H.x.ravel(), X.ravel())
""")

bug(id="z37_gradtest_bil_real", property="C29", file="utils/gradtest.py",
    edits=[("    if x_or_y == 0:\n        x[iqx] = x[iqx] + delta1\n        grad = gx[iqx]\n    else:\n        y[iqy] = y[iqy] + delta1\n        grad = gy[iqy]\n",
            "    if x_or_y == 0 or nx > ny:\n        x[iqx] = x[iqx] + delta1\n        grad = gx[iqx]\n    else:\n        y[iqy] = y[iqy] + delta1\n        grad = gy[iqy]\n")],
    needs="a first factor larger than the second one",
    breaks="the gradient with respect to the second factor is never tested",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.utils.gradtest import gradtest_bilinear
class W(LowRankFactorizedMatrix):
    def grady(self, y): return 2 * super().grady(y)
r = np.random.RandomState(0); np.random.seed(0)
H = W(r.randn(6, 2), r.randn(2, 3), r.randn(18))
assert not all(gradtest_bilinear(H, rtol=1e-3, raiseerror=False) for _ in range(60))
""")

bug(id="z38_nonlinear_y", property="C13", file="proximal/Nonlinear.py",
    edits=[("        return self.grad(x) + 1.0 / tau * (x - self.y)\n", "        return self.grad(x) + 1.0 / tau * (x - self.x0)\n")],
    needs="an optimiser that uses the gradient of the prox objective, called away from the starting guess",
    breaks="the gradient belongs to another objective",
    demo="""
import numpy as np
from pyproximal.proximal import Nonlinear
class Q(Nonlinear):
    def fun(self, x): return float(np.sum(x ** 2) / 2)
    def grad(self, x): return x
    def optimize(self):
        x = self.x0.copy()
        for _ in range(200): x = x - 0.2 * self._gradprox(x, self.tau)
        return x
f = Q(np.zeros(2))
assert np.allclose(f.prox(np.array([2., 4.]), 1.), [1., 2.], atol=1e-4)
""")

bug(id="z39_simplex_bracket", property="C17", file="proximal/_Simplex_numba.py",
    edits=[("    y = np.zeros_like(x)\n    for i in range(x.shape[0]):\n        bisect_lower = -1\n", "    y = np.zeros_like(x)\n    bisect_lower = -1\n    for i in range(x.shape[0]):\n"),],
    needs="a matrix whose first rows need a wide bracket, with a limit on the number of bisections",
    breaks="the result of a row depends on the previous rows",
    demo="""
import numpy as np
from pyproximal.proximal import Simplex
r = np.random.RandomState(0)
X = r.randn(2, 4); X[0] -= 1e6
f = Simplex(8, 1., dims=(2, 4), axis=1, maxiter=20, engine="numba")
g = Simplex(4, 1., dims=(1, 4), axis=1, maxiter=20, engine="numba")
assert np.allclose(f.prox(X.ravel(), 1.)[4:], g.prox(X[1], 1.), atol=1e-12)
""")

bug(id="z40_box_scalar", property="C04", file="projection/Box.py",
    edits=[("        mu = bisect(\n            lambda mu: fun(mu, x),\n", "        mu = bisect(\n            lambda mu: round(fun(mu, x), 6),\n")],
    needs="data of small magnitude or tight tolerances",
    breaks="the bisection stops early, the projection is off by the rounding",
    demo="""
import numpy as np
from pyproximal.projection import SimplexProj
x = 1e-4 * np.array([1., 2., 3.5])
y = SimplexProj(3, 1e-4, maxiter=200, xtol=1e-14)(x)
assert np.isclose(y.sum(), 1e-4, rtol=1e-6), y
""")
