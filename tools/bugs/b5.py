"""fifth batch: solvers and utilities"""
BUGS = []
P = "optimization/primal.py"


def bug(**k):
    BUGS.append(k)


bug(id="w01_fista_restart", property="C19", file=P,
    edits=[("            told = t\n            t = (1.0 + np.sqrt(1.0 + 4.0 * t**2)) / 2.0\n            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance check",
            "            told = min(t, 10.0)\n            t = (1.0 + np.sqrt(1.0 + 4.0 * t**2)) / 2.0\n            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance check")],
    needs="FISTA acceleration and more than about twenty iterations",
    breaks="the momentum is damped once the sequence t has grown beyond ten",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import ProximalGradient
A = np.diag([1., .1, .01]); b = np.ones(3)
f, g = L2(Op=pylops.MatrixMult(A), b=b), L1(sigma=1e-3)
x = ProximalGradient(f, g, np.zeros(3), tau=.9, niter=40, acceleration='fista')
u = np.zeros(3); y = u.copy(); t = 1.
for i in range(40):
    uo = u; u = g.prox(y - .9 * f.grad(y), .9)
    to, t = t, (1 + np.sqrt(1 + 4 * t * t)) / 2
    y = u + (to - 1) / t * (u - uo)
assert np.allclose(x, u, rtol=1e-9), (x, u)
""")

bug(id="w04_admm_dual_dtype", property="C24", file=P,
    edits=[("            x = proxf.prox(z - u, tau)\n            z = proxg.prox(x + u, tau)\n        u = u + x - z\n", "            x = proxf.prox(z - u, tau)\n            z = proxg.prox(x + u, tau)\n        u += (x - z).astype(u.dtype)\n")],
    needs="ADMM on complex data started from a real initial guess",
    breaks="the dual variable keeps the type of the initial guess and loses its imaginary part",
    demo="""
import numpy as np, warnings
warnings.simplefilter('ignore')
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import ADMM
b = np.array([1 + 2j, -3j, .5])
x1 = ADMM(L2(b=b), L1(sigma=.4), np.zeros(3), 1.5, niter=4)[0]
x2 = ADMM(L2(b=b), L1(sigma=.4), np.zeros(3, complex), 1.5, niter=4)[0]
assert np.allclose(x1, x2), (x1, x2)
""")

bug(id="w08_drs_alias", property="C22", file=P,
    edits=[("            x = proxf.prox(y, tau)\n            y = y + eta * (proxg.prox(2 * x - y, tau) - x)\n", "            x = proxf.prox(y, tau)\n            y += eta * (proxg.prox(2 * x - y, tau) - x)\n")],
    needs="the f-first order, and a callback that keeps the arrays it is given or an operator that returns its input unchanged",
    breaks="the running variable is updated in place, changing arrays already handed out",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import DouglasRachfordSplitting
ys = []
DouglasRachfordSplitting(L2(b=np.array([1., -2.])), L1(sigma=.5), np.zeros(2), 1., niter=5, gfirst=False, callback=lambda x, y: ys.append(y), callbacky=True)
assert not np.allclose(ys[0], ys[-1])
""")

bug(id="w09_ppxa_inplace", property="C24", file=P,
    edits=[("        y = y + eta * (2 * pn - x - p)\n", "        y += eta * (2 * pn - x - p)\n")],
    needs="one starting point per function, given as a two-dimensional array",
    breaks="the array of starting points is overwritten",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import PPXA
x0 = np.array([[1., 2.], [3., 4.]])
x1 = x0.copy()
PPXA([L2(b=np.ones(2)), L1()], x1, 1., niter=3)
assert np.array_equal(x0, x1)
""")

bug(id="w12_apd_scale", property="C23", file="optimization/primaldual.py",
    edits=[("        elif p < s * d / delta:\n", "        elif p < d / delta:\n")],
    needs="a residual scaling s different from one and a primal residual much smaller than the dual one",
    breaks="the scaling of the dual residual is ignored when the dual step is to grow",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primaldual import AdaptivePrimalDual
A = np.array([[1., 2.], [0., 1.], [3., -1.]])
f, g = L2(b=np.array([1., -2.])), L1(sigma=.5)
x, (t, m, a) = AdaptivePrimalDual(f, g, pylops.MatrixMult(A), np.zeros(2), .1, .1, s=20., niter=1)
p = q = None
y = g.proxdual(.1 * (2 * A @ (x1 := f.prox(np.zeros(2), .1))), .1)
P = np.linalg.norm(-x1 / .1 + A.T @ y); D = np.linalg.norm(-y / .1 + A @ x1)
want = .1 / .5 if P > 20 * D * 1.5 else .1 * .5 if P < 20 * D / 1.5 else .1
assert np.isclose(t[1], want), (t, want)
""")

bug(id="w14_palm_floor", property="C25", file="optimization/palm.py",
    edits=[("        if f <= ft or tau < 1e-12:\n", "        if f <= ft or tau < 1e-6:\n")],
    needs="backtracking on a problem whose factors are large (Lipschitz constant above a million)",
    breaks="a step that does not satisfy the descent condition is accepted",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.optimization.palm import PALM
r = np.random.RandomState(0)
X, Y = 1e5 * r.normal(size=(3, 2)), 1e5 * r.normal(size=(2, 4))
d = 1e10 * r.normal(size=12)
H = LowRankFactorizedMatrix(X, Y, d)
v = [H(X.ravel(), Y.ravel())]
PALM(H, None, None, X.ravel(), Y.ravel(), gammaf=None, gammag=None, niter=5, callback=lambda x, y: v.append(H(x, y)))
assert all(b <= a * (1 + 1e-9) for a, b in zip(v, v[1:])), v
""")

bug(id="w16_lipschitz_col", property="C26", file="utils/bilinear.py",
    edits=[('        return float(np.linalg.norm(np.conj(X).T @ X, "fro"))\n', "        return float(np.max(np.sum(np.abs(X) ** 2, axis=0)))\n")],
    needs="correlated columns in the left factor",
    breaks="the constant is smaller than the Lipschitz constant of the gradient",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
X = np.ones((3, 2)); Y = np.zeros((2, 4))
H = LowRankFactorizedMatrix(X, Y, np.zeros(12))
a, b = np.ones(8), np.zeros(8)
assert np.linalg.norm(H.grady(a) - H.grady(b)) <= H.lx(X.ravel()) * np.linalg.norm(a - b) * (1 + 1e-9)
""")

bug(id="w17_segment_centered", property="C28", file="optimization/segmentation.py",
    edits=[('edge=False, kind="forward", dtype', 'edge=False, kind="centered", dtype')],
    needs="an image with isolated pixels differing from their neighbourhood and a weight large enough to smooth them away",
    breaks="the regularisation does not couple neighbouring pixels",
    demo="""
import numpy as np
from pyproximal.optimization.segmentation import Segment
y = np.zeros((6, 6)); y[2, 3] = 1.
x, cl = Segment(y, np.array([0., 1.]), 1., 1., niter=600)
assert cl.max() == 0, cl
y = np.indices((6, 6)).sum(0) % 2 * 1.
x, cl = Segment(y + .1, np.array([0., 1.]), 1., 2., niter=600)
assert cl.min() == cl.max(), cl
""")

bug(id="w19_moreau_imag", property="C29", file="utils/moreau.py",
    edits=[("    if np.allclose(x, p + pdual, atol=tol):\n", "    if np.allclose(np.real(x), np.real(p + pdual), atol=tol):\n")],
    needs="an operator whose dual is wrong in its imaginary part only",
    breaks="the wrong operator is accepted",
    demo="""
import numpy as np
from pyproximal.utils.moreau import moreau
from pyproximal.proximal import L1
class Bad(L1):
    def proxdual(self, x, tau):
        d = super().proxdual(x, tau)
        return d.real + 1j * 1.5 * d.imag
assert not moreau(Bad(), np.array([2 + 1j, 3j]), 1., raiseerror=False)
""")

bug(id="w20_pnp_order", property="C27", file="optimization/pnp.py",
    edits=[("        return xden.ravel()\n", '        return xden.ravel(order="K")\n')],
    needs="a denoiser that returns an array in Fortran order (a transposed result, for instance)",
    breaks="the pixels of the denoised image are permuted",
    demo="""
import numpy as np
from pyproximal.proximal import L2
from pyproximal.optimization.pnp import PlugAndPlay
b = np.arange(6.)
den = lambda x, tau: (x.T / (1 + tau)).copy().T
x, z = PlugAndPlay(L2(b=b), den, (2, 3), np.zeros(6), tau=1., niter=200)
assert np.allclose(z, b / 2, atol=1e-5), z
""")

bug(id="w32_bregman_tuple", property="C27", file="optimization/bregman.py",
    edits=[("            x = x[0]\n", "            x = x[-1] if x[-1].shape == x0.shape else x[0]\n")],
    needs="an inner solver that returns both variables, stopped before they agree",
    breaks="the auxiliary variable is taken for the solution",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.primal import ADMM
f, g, x0 = L2(b=np.array([1., -2., .3])), L1(), np.zeros(3)
x = Bregman(f, g, x0, ADMM, alpha=.5, niterouter=1, tau=1., niter=2)
assert np.allclose(x, ADMM(f, .5 * g, x0, 1., niter=2)[0])
""")

bug(id="w39_ipalm_bt", property="C25", file="optimization/palm.py",
    edits=[("                [z, y], tauf, H, proxf, 0,", "                [x, y], tauf, H, proxf, 0,")],
    needs="the inertial algorithm with the x step found by backtracking",
    breaks="the inertial point is not used in the x step",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.optimization.palm import iPALM
r = np.random.RandomState(0)
X, Y = r.normal(size=(3, 2)), r.normal(size=(2, 4)); d = r.normal(size=12)
def run(a):
    return iPALM(LowRankFactorizedMatrix(X, Y, d), None, None, X.ravel(), Y.ravel(), gammaf=None, gammag=None, a=(a, 0.), niter=4)[0]
assert not np.allclose(run(0.), run(.5))
""")
