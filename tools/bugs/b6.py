"""sixth batch"""
BUGS = []
P = "optimization/primal.py"


def bug(**k):
    BUGS.append(k)


bug(id="x01_pg_bilinear", property="C19", file=P,
    edits=[("        if isinstance(proxf, BilinearOperator):\n            proxf.updatexy(x)\n", "        if isinstance(proxf, BilinearOperator) and not backtracking:\n            proxf.updatexy(x)\n")],
    needs="proximal gradient with backtracking on a bilinear data term",
    breaks="the factors held by the bilinear operator stay at the initial guess, so the joint gradient is evaluated at a stale point",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.proximal import L2
from pyproximal.optimization.primal import ProximalGradient
r = np.random.RandomState(0)
X, Y, d = r.normal(size=(3, 1)), r.normal(size=(1, 2)), r.normal(size=6)
H = LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
v = np.concatenate([X.ravel(), Y.ravel()])
x = ProximalGradient(H, L2(sigma=1e-3), v, tau=.01, backtracking=True, niter=5)
u = v.copy()
for _ in range(5):
    a, b = u[:3].reshape(3, 1), u[3:].reshape(1, 2)
    R = a @ b - d.reshape(3, 2)
    u = (u - .01 * np.concatenate([(R @ b.T).ravel(), (a.T @ R).ravel()])) / (1 + 1e-5)
assert np.allclose(x, u), (x, u)
""")

bug(id="x02_twist_cost", property="C19", file=P,
    edits=[("            j[iiter] = proxf(x) + proxg(x)\n", "            j[iiter] = proxf(xold) + proxg(x)\n")],
    needs="cost history of TwIST",
    breaks="the cost of an iteration mixes two iterates",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L1
from pyproximal.optimization.primal import TwIST
A = np.array([[.9, .1], [.2, .5]]); b = np.array([1., -2.])
its = []
x, j = TwIST(L1(sigma=.1), pylops.MatrixMult(A), b, np.array([3., 4.]), eigs=(.9, .1), niter=4, returncost=True, callback=lambda v: its.append(v.copy()))
assert np.allclose(j, [np.linalg.norm(A @ v - b) ** 2 / 2 + .1 * np.abs(v).sum() for v in its])
""")

bug(id="x03_twist_rho", property="C19", file=P,
    edits=[("        rho = (1 - sqrt(k)) / (1 + sqrt(k))\n", "        rho = (1 - sqrt(k)) / (1 + k)\n")],
    needs="default two-step parameters with positive smallest eigenvalue",
    breaks="alpha is not the one of the paper",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L1
from pyproximal.optimization.primal import TwIST
A = np.diag([.9, .3]); b = np.array([1., -2.]); x0 = np.array([3., 4.])
x = TwIST(L1(sigma=.1), pylops.MatrixMult(A), b, x0, eigs=(.81, .09), niter=6)
k = .09; rho = (1 - k ** .5) / (1 + k ** .5); al = 1 + rho ** 2; be = 2 * al / (1 + .09)
y = TwIST(L1(sigma=.1), pylops.MatrixMult(A), b, x0, alpha=al, beta=be, niter=6)
assert np.allclose(x, y), (x, y)
""")

bug(id="x04_anderson_guard_hist", property="C19", file=P,
    edits=[("                x = proxg.prox(g, epsg[iiter] * tau)\n                y = g\n", "                x = proxg.prox(g, epsg[iiter] * tau)\n                y = ytest\n")],
    needs="safeguarded Anderson acceleration with a rejected extrapolation followed by further iterations",
    breaks="the residual after a rejected step is taken with respect to the rejected point",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import AndersonProximalGradient
r = np.random.RandomState(1)
A = r.normal(size=(8, 6)); b = r.normal(size=8)
f, g = L2(Op=pylops.MatrixMult(A), b=b), L1(sigma=.5)
tau = .9 / np.linalg.norm(A, 2) ** 2
x0 = r.normal(size=6); n = 12
x = AndersonProximalGradient(f, g, x0, tau=tau, niter=n, nhistory=4, safeguard=True)
y = x0 - tau * f.grad(x0); u = g.prox(y, tau); R, G = [y - x0], [y]
for k in range(n):
    gg = u - tau * f.grad(u)
    R, G = ([gg - y] + R)[:4], ([gg] + G)[:4]
    M = np.array(R) / np.linalg.norm(R)
    a = np.linalg.pinv(M @ M.T + 1e-10 * np.eye(len(R))) @ np.ones(len(R)); a /= a.sum()
    yt = np.array(G).T @ a; xt = g.prox(yt, tau)
    if f(xt) <= f(u) - tau * np.linalg.norm(f.grad(u)) ** 2 / 2:
        y, u = yt, xt
    else:
        u, y = g.prox(gg, tau), gg
assert np.allclose(x, u, atol=1e-6), (x, u)
""")

bug(id="x05_l2_warm_off", property="C16", file="proximal/L2.py",
    edits=[("            if self.warm:\n                self.x0 = x\n        elif self.b is not None:\n            num = x + tau", "            if self.warm or self.x0 is None:\n                self.x0 = x\n        elif self.b is not None:\n            num = x + tau")],
    needs="warm start off, no initial guess, few inner iterations, at least two prox calls",
    breaks="the second call starts from the first solution although warm start is off",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2
r = np.random.RandomState(0)
A = r.normal(size=(6, 5))
f = L2(Op=pylops.FunctionOperator(lambda x: A @ x, lambda y: A.T @ y, 6, 5), b=r.normal(size=6), niter=2, warm=False)
x = r.normal(size=5)
assert np.allclose(f.prox(x, 1.), f.prox(x, 1.))
""")

bug(id="x06_nonlinear_warm", property="C16", file="proximal/Nonlinear.py",
    edits=[("        if self.warm:\n            self.x0 = x\n", "        if self.warm or self.niter < 10:\n            self.x0 = x\n")],
    needs="warm start off with few inner iterations, at least two prox calls",
    breaks="the second call starts from the first solution although warm start is off",
    demo="""
import numpy as np
from pyproximal.proximal import Nonlinear
class F(Nonlinear):
    def fun(self, x): return float(np.sum(x ** 4))
    def grad(self, x): return 4 * x ** 3
    def optimize(self):
        x = self.x0.copy()
        for _ in range(self.niter):
            x = x - .05 * self._gradprox(x, self.tau)
        return x
f = F(np.ones(3), niter=3, warm=False)
x = np.array([1., 2., -1.])
assert np.array_equal(f.prox(x, 1.), f.prox(x, 1.))
""")

bug(id="x07_quadratic_warm", property="C16", file="proximal/Quadratic.py",
    edits=[("            if self.warm:\n                self.x0 = x\n", "            if self.warm or not self.Op.explicit:\n                self.x0 = x\n")],
    needs="matrix-free quadratic with warm start off and few inner iterations, at least two prox calls",
    breaks="the second call starts from the first solution although warm start is off",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Quadratic
r = np.random.RandomState(0)
A = r.normal(size=(6, 6)); A = A @ A.T
f = Quadratic(Op=pylops.FunctionOperator(lambda x: A @ x, lambda y: A.T @ y, 6, 6), b=r.normal(size=6), niter=2, warm=False)
x = r.normal(size=6)
assert np.allclose(f.prox(x, 1.), f.prox(x, 1.))
""")

bug(id="x08_radius_shrink", property="C14", file="proximal/L0.py",
    edits=[("        radius = _current_radius(self.radius, self.count)\n        self.ball.radius = radius\n        y = self.ball(x)\n        return y\n",
            "        radius = _current_radius(self.radius, self.count)\n        if radius < self.ball.radius or self.count == 1:\n            self.ball.radius = radius\n        y = self.ball(x)\n        return y\n")],
    needs="a radius schedule that grows again",
    breaks="the radius of the first smallest value is kept",
    demo="""
import numpy as np
from pyproximal.proximal import L0Ball
b = L0Ball(lambda k: [5, 2, 1, 3][k])
x = np.arange(1., 6.)
assert [np.count_nonzero(b.prox(x, 1.)) for _ in range(3)] == [2, 1, 3]
""")

bug(id="x09_tv3d_step", property="C12", file="proximal/TV.py",
    edits=[("                k -= 1.0 / (12.0 * gamma * mt**2) * dz\n", "                k -= 1.0 / (4.0 * gamma * mt**2) * dz\n")],
    needs="three-dimensional arrays varying in the last direction",
    breaks="the last component is updated with another step, so the iteration settles elsewhere",
    demo="""
import numpy as np
from pyproximal.proximal import TV
r = np.random.RandomState(0)
x = r.normal(size=(3, 3, 4))
f = TV((3, 3, 4), sigma=.3, niter=4000, rtol=0)
y = f.prox(x.ravel(), 1.)
o = lambda v: f(v) + np.linalg.norm(v - x.ravel()) ** 2 / 2
b = o(y)
for k in range(3000):
    assert o(y + 10. ** -r.uniform(1, 5) * r.normal(size=36)) >= b - 1e-9
z = x.transpose(2, 1, 0)
w = TV((4, 3, 3), sigma=.3, niter=4000, rtol=0).prox(z.ravel(), 1.).reshape(4, 3, 3).transpose(2, 1, 0)
assert np.allclose(w.ravel(), y, atol=1e-3), np.abs(w.ravel() - y).max()
""")

bug(id="x10_factor_close", property="C13", file="proximal/L2.py",
    edits=[("                    if self.tausigma != tau * self.sigma:\n", "                    if abs(self.tausigma - tau * self.sigma) > 1e-3 * self.tausigma:\n")],
    needs="factorised solver with two successive steps that differ by less than a tenth of a percent",
    breaks="the factorisation of the previous step is used",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2
r = np.random.RandomState(0)
A = r.normal(size=(6, 5)); b = r.normal(size=6); x = r.normal(size=5)
f = L2(Op=pylops.MatrixMult(A), b=b, densesolver='factorize')
f.prox(x, 1.)
y = f.prox(x, 1.0005)
assert np.allclose(y, np.linalg.solve(np.eye(5) + 1.0005 * A.T @ A, x + 1.0005 * A.T @ b), rtol=1e-9)
""")

bug(id="x12_ppxa_relax", property="C22", file=P,
    edits=[("        x = x + eta * (pn - x)\n", "        x = x + min(eta, 1.0) * (pn - x)\n")],
    needs="over-relaxation (eta above one)",
    breaks="the iterate is not relaxed although the auxiliary variables are",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import PPXA
b = np.array([1., -2., .3])
x = PPXA([L2(b=b), L1(sigma=.1)], np.zeros(3), 1., eta=1.5, niter=3, tol=None)
f = [L2(b=b), L1(sigma=.1)]
y = np.zeros((2, 3)); u = np.zeros(3)
for _ in range(3):
    p = np.array([f[i].prox(y[i], 2.) for i in range(2)]); pn = p.mean(0)
    y = y + 1.5 * (2 * pn - u - p); u = u + 1.5 * (pn - u)
assert np.allclose(x, u)
""")

bug(id="x13_segment_argmax", property="C28", file="optimization/segmentation.py",
    edits=[("    cl = np.argmax(x, axis=1)\n", "    cl = np.argmax(np.round(x, 2), axis=1)\n")],
    needs="a pixel whose two largest probabilities differ by less than a hundredth, the larger in the later class",
    breaks="the label is not that of the largest probability",
    demo="""
import numpy as np
from pyproximal.optimization.segmentation import Segment
r = np.random.RandomState(0)
for k in range(300):
    y = .5 + .02 * r.normal(size=(4, 4))
    x, cl = Segment(y, np.array([0., 1.]), 1., .01, niter=1)
    d = x[np.arange(16), cl.ravel()]
    assert np.all(d == x.max(1)), (d, x.max(1))
""")

bug(id="x14_hyperplane_shape", property="C04", file="projection/Box.py",
    edits=[("        x = x.ravel()\n        # identify brackets", "        x = x.ravel(order=\"K\")\n        # identify brackets") if False else
           ("        xshape = x.shape\n        x = x.ravel()\n", "        xshape = x.shape\n        x = x.ravel(order=\"K\")\n")],
    needs="a matrix in column-major or transposed layout",
    breaks="the result comes back in another order",
    demo="""
import numpy as np
from pyproximal.projection import HyperPlaneBoxProj
x = np.arange(6.).reshape(2, 3)
p = HyperPlaneBoxProj(np.arange(1., 7.), 3., 0., 2.)
assert np.allclose(p(x), p(np.asfortranarray(x)))
""")

bug(id="x15_dr_overrelax", property="C22", file=P,
    edits=[("            y = y + eta * (proxg.prox(2 * x - y, tau) - x)\n", "            y = y + eta * proxg.prox(2 * x - y, tau) - x\n") if False else
           ("            y = y + eta * (proxg.prox(2 * x - y, tau) - x)\n", "            y = y + (eta if iiter else 1.0) * (proxg.prox(2 * x - y, tau) - x)\n")],
    needs="f applied first and a relaxation different from one",
    breaks="the first update is not relaxed",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import DouglasRachfordSplitting
f, g = L2(b=np.array([1., -2.])), L1(sigma=.1)
x, y = DouglasRachfordSplitting(f, g, np.ones(2), 1., eta=.5, niter=2, gfirst=False)
v = np.ones(2)
for _ in range(2):
    u = f.prox(v, 1.); v = v + .5 * (g.prox(2 * u - v, 1.) - u)
assert np.allclose(y, v)
""")

bug(id="x16_breg_first", property="C27", file="optimization/bregman.py",
    edits=[("            x = solver(proxf_q, proxg, A=A, x0=x if warm else x0, **kwargs_solver)\n", "            x = solver(proxf_q, proxg, A=A, x0=x if warm or iiter == 1 else x0, **kwargs_solver)\n")],
    needs="cold starts with an operator A, an inner solver that is not run to convergence, two outer iterations",
    breaks="the second outer iteration is started from the previous solution although warm is off",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import LinearizedADMM
from pyproximal.optimization.bregman import Bregman
st = []
def solver(f, g, x0, A, **kw):
    st.append(x0.copy()); return LinearizedADMM(f, g, A, x0, **kw)
Bregman(L2(b=np.array([1., 2.])), L1(), np.zeros(2), solver, A=pylops.MatrixMult(np.eye(2)), niterouter=4, tau=1., mu=.5, niter=2)
assert all(np.array_equal(s, np.zeros(2)) for s in st), st
""")

bug(id="x17_huber_circ_neg", property="C30", file="proximal/Huber.py",
    edits=[("        x = (1.0 - tau / max(float(np.linalg.norm(x)), tau + self.alpha)) * x\n", "        x = (1.0 - tau / max(float(np.linalg.norm(x.real)), tau + self.alpha)) * x\n")],
    needs="complex vectors with an imaginary part, away from the quadratic part",
    breaks="the norm of the real part decides the shrinkage of complex vectors",
    demo="""
import numpy as np
from pyproximal.proximal import HuberCircular
f = HuberCircular(.5)
x = np.array([1., 2.])
assert np.allclose(f.prox(1j * x, 1.), 1j * f.prox(x, 1.))
""")

bug(id="x19_euclid_ball_value", property="C05", file="proximal/Euclidean.py",
    edits=[("        return bool(np.linalg.norm(x - self.center) <= self.radius)\n", "        return bool(np.max(np.abs(x - self.center)) <= self.radius) and bool(np.sum((x - self.center) ** 2) <= self.radius**2 * (1 + 1e-12))\n")],
    needs="complex points with a large imaginary part",
    breaks="squares of complex numbers are summed without moduli",
    demo="""
import numpy as np
from pyproximal.proximal import EuclideanBall
f = EuclideanBall(0., 1.)
assert not f(np.array([.9, .9j]))
""")

bug(id="x20_sum_single_weight", property="C09", file="proximal/Sum.py",
    edits=[("        return self.ops[0].prox(x0, tau)\n", "        return self.ops[0].prox(x0, tau * self.w[0])\n")],
    needs="a sum of one operator with an explicit weight different from one",
    breaks="the step is scaled by a weight that has no effect in this mode",
    demo="""
import numpy as np
from pyproximal.proximal import Sum, L1
x = np.array([1., -3., .2])
assert np.allclose(Sum([L1()], weights=[2.]).prox(x, .5), L1().prox(x, .5))
""")

bug(id="x21_chain_tau", property="C07", file="ProxOperator.py",
    edits=[("        return self.g.prox(self.f.prox(x, tau), tau)\n", "        y = self.f.prox(x, tau)\n        return y if y is x else self.g.prox(y, tau)\n")],
    needs="a chain whose first operator returns its argument itself (point inside a half space)",
    breaks="the second operator is skipped",
    demo="""
import numpy as np
from pyproximal.proximal import HalfSpace, L1
f = HalfSpace(np.ones(2), 10.).chain(L1())
assert np.allclose(f.prox(np.array([1., 2.]), 1.), [0., 1.])
""")

bug(id="x22_precomp_scalar_b", property="C07", file="ProxOperator.py",
    edits=[("        return self.a * self.f.grad(self.a * x + self.b)\n", "        return abs(self.a) * self.f.grad(self.a * x + self.b)\n")],
    needs="composition with a negative scaling",
    breaks="the sign of the gradient",
    demo="""
import numpy as np
from pyproximal.proximal import L2
assert np.allclose(L2().precomposition(-2., 1.).grad(np.array([1.])), 2 * 2 * 1. - 2)
""")

bug(id="x23_numba_ftol", property="C17", file="proximal/_Simplex_numba.py",
    edits=[("        if np.abs(fc) < ftol:\n", "        if np.abs(fc) < ftol * x.size**2:\n")],
    needs="long vectors with the numba engine",
    breaks="the requested accuracy is loosened by the square of the length",
    demo="""
import numpy as np
from pyproximal.proximal import Simplex
r = np.random.RandomState(0)
x = r.normal(size=3000)
y = Simplex(3000, 1., engine='numba').prox(x, 1.)
assert abs(y.sum() - 1.) < 1e-4, y.sum()
""")

bug(id="x24_affine_cold", property="C04", file="projection/AffineSet.py",
    edits=[("            xinv = sp_cg(self.Op * self.Op.H, self.Op * x - self.b, maxiter=self.niter)[\n                0\n            ]\n",
            "            xinv = sp_cg(\n                self.Op * self.Op.H,\n                self.Op * x - self.b,\n                maxiter=min(self.niter, 10 * self.Op.shape[0]),\n                rtol=1e-3,\n            )[0]\n")],
    needs="an operator with several constraints whose normal matrix is not a multiple of the identity",
    breaks="the system is solved to a thousandth only",
    demo="""
import numpy as np, pylops
from pyproximal.projection import AffineSetProj
r = np.random.RandomState(0)
for k in range(50):
    A = r.normal(size=(6, 12)) * np.logspace(0, 1, 6)[:, None]; b = r.normal(size=6)
    x = r.normal(size=12); y = AffineSetProj(pylops.MatrixMult(A), b, niter=1000)(x)
    assert np.linalg.norm(A @ y - b) < 1e-4 * np.linalg.norm(A @ x - b), np.linalg.norm(A @ y - b)
""")
