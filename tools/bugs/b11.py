BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="r01_admm_u0", property="C21", file="optimization/primal.py",
    edits=[("    ncp = get_array_module(x)\n    u = ncp.zeros_like(x)\n", "    ncp = get_array_module(x)\n    u = ncp.zeros_like(x) + (x - z)\n")],
    needs="ADMM with two different initial vectors",
    breaks="the scaled dual variable does not start at zero",
    demo="""
import numpy as np
from pyproximal.optimization.primal import ADMM
from pyproximal.proximal import L2, L1
f, g = L2(b=np.array([3., -2.])), L1(sigma=.5)
x0, z0 = np.array([1., 2.]), np.array([-4., 0.])
x, z = ADMM(f, g, x0, tau=.7, z0=z0, niter=1)
assert np.allclose(x, f.prox(z0, .7)), x
""")

bug(id="r02_accpg_eps", property="C18", file="optimization/primal.py",
    edits=[("        tau=tau,\n        beta=beta,\n        epsg=epsg,\n        niter=niter,\n        niterback=niterback,\n", "        tau=tau,\n        beta=beta,\n        epsg=min(epsg, 1.0),\n        niter=niter,\n        niterback=niterback,\n")],
    needs="the deprecated accelerated entry point with a weight of g above one",
    breaks="the limit minimises another objective",
    demo="""
import numpy as np, warnings
warnings.simplefilter("ignore")
from pyproximal.optimization.primal import AcceleratedProximalGradient
from pyproximal.proximal import L2, L1
x = AcceleratedProximalGradient(L2(b=np.array([3., -2.])), L1(), np.zeros(2), tau=1., epsg=2., niter=50)
assert np.allclose(x, [1., 0.]), x
""")

bug(id="r03_ppa_settled", property="C18", file="optimization/primal.py",
    edits=[("        x = prox.prox(x, tau)\n\n        # run callback\n", "        xnew = prox.prox(x, tau)\n        if np.allclose(xnew, x):\n            break\n        x = xnew\n\n        # run callback\n")],
    needs="steps of the proximal point algorithm that are short compared to the iterate",
    breaks="the iterations end long before the minimiser",
    demo="""
import numpy as np
from pyproximal.optimization.primal import ProximalPoint
from pyproximal.proximal import L1
x = ProximalPoint(L1(), np.array([100., -50.]), tau=5e-4, niter=1000)
assert np.allclose(x, [99.5, -49.5], atol=1e-6), x
""")

bug(id="r10_palm_lx_old", property="C25", file="optimization/palm.py",
    edits=[("    for iiter in range(niter):\n        # x step\n        if gammaf is not None:\n            ck = gammaf * H.ly(y)\n            x = x", "    for iiter in range(niter):\n        lx = H.lx(x) if gammag is not None else 0.0\n        # x step\n        if gammaf is not None:\n            ck = gammaf * H.ly(y)\n            x = x"),
           ("            dk = gammag * H.lx(x)\n            y = y", "            dk = gammag * lx\n            y = y")],
    needs="a first block that grows during an iteration of PALM",
    breaks="the step of the second block is too long, the objective increases",
    demo="""
import numpy as np
from pyproximal.optimization.palm import PALM
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
d = np.array([[4., 8.], [2., 6.]])
x0, y0 = 0.01 * np.ones((2, 1)), 0.5 * np.ones((1, 2))
H = LowRankFactorizedMatrix(x0.copy(), y0.copy(), d.ravel())
J = [H(x0.ravel(), y0.ravel())]
PALM(H, None, None, x0.ravel(), y0.ravel(), gammaf=1.1, gammag=1.1, niter=10, callback=lambda x, y: J.append(H(x, y)))
assert all(b <= a + 1e-10 for a, b in zip(J, J[1:])), J
""")

bug(id="r15_l0_tiny", property="C01", file="proximal/L0.py",
    edits=[("        return int(np.sum(np.abs(x) > 0.0))\n", "        return int(np.sum(np.abs(x) > np.finfo(float).eps))\n")],
    needs="a vector with entries of tiny magnitude",
    breaks="small non-zero entries are not counted",
    demo="""
import numpy as np
from pyproximal.proximal import L0
assert L0()(np.array([1e-20, 0., 1.])) == 2
""")

bug(id="r16_l0ball_tiny", property="C05", file="proximal/L0.py",
    edits=[("        return bool(np.linalg.norm(np.abs(x), ord=0) <= radius)\n", "        return bool(np.sum(np.abs(x) > 1e-10) <= radius)\n")],
    needs="a vector in small units",
    breaks="vectors with too many non-zero entries are reported as members",
    demo="""
import numpy as np
from pyproximal.proximal import L0Ball
assert not L0Ball(1)(np.array([1e-11, 2e-11, 0.]))
assert L0Ball(2)(np.array([1e-11, 2e-11, 0.]))
""")

bug(id="r19_two_parallel", property="C09", file="proximal/_Dykstra.py",
    edits=[("    if len(items) == 2 and not use_parallel:\n        return two\n", "    if len(items) == 2:\n        return two\n")],
    needs="two functions in parallel mode with the original step and unequal weights",
    breaks="the weights are ignored",
    demo="""
import numpy as np
from pyproximal.proximal import Sum, L2
f = Sum([L2(b=np.array([3.])), L2(b=np.array([-1.]))], weights=[.25, .75], use_parallel=True, use_original_tau=True, niter=2000, tol=0.)
assert np.allclose(f.prox(np.zeros(1), 1.), [0.], atol=1e-6), f.prox(np.zeros(1), 1.)
""")

bug(id="r26_gradtest_verb", property="C29", file="utils/gradtest.py",
    edits=[("    if (not passed and raiseerror) or verb:\n        passed_status = \"passed\" if passed else \"failed\"\n        msg = (\n            f\"Grad test {passed_status}, Analytic={grad.real if r_or_i == 0 else grad.imag} - \"\n            f\"Numeric={grad_delta}\"\n        )\n        if not passed and raiseerror:\n            raise AssertionError(msg)\n        else:\n            print(msg)\n\n    return passed\n\n\ndef",
            "    if (not passed and raiseerror) or verb:\n        passed_status = \"passed\" if passed else \"failed\"\n        msg = (\n            f\"Grad test {passed_status}, Analytic={grad.real if r_or_i == 0 else grad.imag} - \"\n            f\"Numeric={grad_delta}\"\n        )\n        if verb:\n            print(msg)\n        else:\n            raise AssertionError(msg)\n\n    return passed\n\n\ndef")],
    needs="a wrong gradient tested with verb=True and raiseerror=True",
    breaks="the failure is only printed",
    demo="""
import numpy as np
from pyproximal.proximal import L2
from pyproximal.utils.gradtest import gradtest_proximal
class Bad(L2):
    def grad(self, x):
        return 2. * super().grad(x) + 1.
try:
    gradtest_proximal(Bad(), 4, raiseerror=True, verb=True)
except AssertionError:
    pass
else:
    raise SystemExit(1)
""")

bug(id="r31_l2_grad_alias", property="C16", file="proximal/L2.py",
    edits=[("        else:\n            g = self.sigma * x\n", "        else:\n            g = x if self.sigma == 1.0 else self.sigma * x\n")],
    needs="the gradient of a plain L2 of unit weight with a dot-product term",
    breaks="the dot-product vector is added to the input",
    demo="""
import numpy as np
from pyproximal.proximal import L2
x = np.ones(3)
L2(q=np.arange(3.)).grad(x)
assert np.array_equal(x, np.ones(3)), x
""")

bug(id="r32_anderson_ones", property="C19", file="optimization/primal.py",
    edits=[("        if iiter >= nhistory - 1:\n            R.pop(-1)\n            G.pop(-1)\n", "        if iiter >= nhistory - 1:\n            R.pop(-1)\n            G.pop(0 if iiter > 2 * nhistory else -1)\n")],
    needs="Anderson acceleration run for more than twice its history",
    breaks="the stored points do not match the stored residuals",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import AndersonProximalGradient
from pyproximal.proximal import L2, L1
rng = np.random.default_rng(0)
A = rng.normal(size=(8, 6)); b = rng.normal(size=8)
tau = 1 / np.linalg.norm(A, 2) ** 2
x = AndersonProximalGradient(L2(Op=pylops.MatrixMult(A), b=b), L1(sigma=.1), np.zeros(6), tau=tau, niter=300, nhistory=2)
p = L1(sigma=.1).prox(x - tau * A.T @ (A @ x - b), tau)
assert np.allclose(x, p, atol=1e-6), (x, p)
""")

bug(id="r34_hqs_z0", property="C19", file="optimization/primal.py",
    edits=[("            z = proxg.prox(x, tau[iiter])\n            x = proxf.prox(z, tau[iiter])\n        else:\n", "            z = proxg.prox(x if iiter else z, tau[iiter])\n            x = proxf.prox(z, tau[iiter])\n        else:\n")],
    needs="HQS with gfirst=True and two different initial vectors",
    breaks="the first step starts from the wrong vector",
    demo="""
import numpy as np
from pyproximal.optimization.primal import HQS
from pyproximal.proximal import L2, L1
g = L1(sigma=.5)
x0, z0 = np.array([1., 2.]), np.array([-4., 0.])
s = []
HQS(L2(b=np.array([3., -2.])), g, x0, tau=.7, z0=z0, niter=1, gfirst=True, callback=lambda x, z: s.append(z), callbackz=True)
assert np.allclose(s[0], g.prox(x0, .7)), s
""")

bug(id="r35_ladmm_mu", property="C21", file="optimization/primal.py",
    edits=[("        z = proxg.prox(Ax + u, tau)\n        u = u + Ax - z\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        if show:\n            if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:\n                pf, pg = proxf(x), proxg(Ax)\n", "        z = proxg.prox(Ax + u, min(tau, 1.0))\n        u = u + Ax - z\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        if show:\n            if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:\n                pf, pg = proxf(x), proxg(Ax)\n")],
    needs="linearized ADMM with a step above one",
    breaks="the second step is shortened, the limit is not the minimiser",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import LinearizedADMM
from pyproximal.proximal import L2, L1
A = pylops.MatrixMult(np.eye(2))
x, z = LinearizedADMM(L2(b=np.array([3., -.5])), L1(), A, np.zeros(2), 2., 1., niter=500)
assert np.allclose(x, [2., 0.], atol=1e-5), x
""")

bug(id="r36_bregman_q", property="C27", file="optimization/bregman.py",
    edits=[("        if iiter == 0:\n            proxf_q = proxf\n        else:\n            proxf_q = deepcopy(proxf) - alpha * q.copy()\n", "        if iiter == 0 or np.allclose(q, 0.0, atol=1e-3):\n            proxf_q = proxf\n        else:\n            proxf_q = deepcopy(proxf) - alpha * q.copy()\n")],
    needs="data in small units, so that the subgradient is small",
    breaks="the Bregman iterations do not add back the residual",
    demo="""
import numpy as np
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
b = 1e-3 * np.array([3., -.2])
x = Bregman(L2(b=b), L1(sigma=5e-4), np.zeros(2), ProximalGradient, niterouter=30, tolx=0., tolf=0., tau=1., niter=50)
assert np.allclose(x, b, atol=1e-8), x
""")

bug(id="r37_tv_gamma_int", property="C12", file="proximal/TV.py",
    edits=[("        told, prev_obj = 1.0, 0.0\n", "        gamma = np.minimum(gamma, 1e3)\n        told, prev_obj = 1.0, 0.0\n")],
    needs="steps times weight above a thousand",
    breaks="the regularisation saturates",
    demo="""
import numpy as np
from pyproximal.proximal import TV
x = np.array([0., 4000., 0., 4000.])
y = TV((4,), sigma=1., niter=5000, rtol=0.).prox(x, 2000.)
assert np.allclose(y, 2000., rtol=.02), y
""")

bug(id="r38_segment_sig", property="C28", file="optimization/segmentation.py",
    edits=[("        g /= clsigmas[:, np.newaxis]\n", "        g /= np.maximum(clsigmas[:, np.newaxis], 1e-2)\n")],
    needs="class deviations below a hundredth",
    breaks="the data term of narrow classes is too weak",
    demo="""
import numpy as np
from pyproximal.optimization.segmentation import Segment
y = np.full((4, 4), 0.48)
x, cl = Segment(y, np.array([0., 1.]), 1., 1e-3, clsigmas=np.array([1e-3, 1.3e-3]), niter=200)
assert np.all(cl == 1), cl
""")

bug(id="r39_svp_shape", property="C10", file="proximal/SingularValuePenalty.py",
    edits=[("        X = np.dot(U * self.penalty.prox(S, tau), Vh)\n", "        Sp = self.penalty.prox(S, tau)\n        Sp = np.minimum.accumulate(Sp)\n        X = np.dot(U * Sp, Vh)\n")],
    needs="a penalty whose prox does not keep the order of the singular values (such as one centred at given values)",
    breaks="larger singular values behind smaller ones are cut",
    demo="""
import numpy as np
from pyproximal.proximal import SingularValuePenalty, L1
X = np.diag([3., 2.])
y = SingularValuePenalty((2, 2), L1(sigma=np.array([2., .1]))).prox(X.ravel(), 1.).reshape(2, 2)
assert np.allclose(np.diag(y), [1., 1.9]), y
""")

bug(id="r40_halfspace_dot", property="C04", file="projection/HalfSpace.py",
    edits=[("        self.w_norm_sq = np.dot(w, w)\n", "        self.w_norm_sq = max(np.dot(w, w), np.finfo(np.float32).tiny)\n")],
    needs="a normal vector of tiny magnitude",
    breaks="the step is too short",
    demo="""
import numpy as np
from pyproximal.proximal import HalfSpace
f = HalfSpace(np.array([3e-20, 4e-20]), 1e-20)
y = f.prox(np.array([1., 1.]), 1.)
assert np.allclose(np.dot([3., 4.], y), 1.), y
""")

bug(id="r41_huber_c", property="C30", file="projection/L1.py",
    edits=[("            return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))\n", "            return np.sign(x.real) * self.simplex(np.abs(x)) if np.all(x.imag <= 1e-3 * np.abs(x.real)) else np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))\n")],
    needs="complex vectors close to the real axis (or below it)",
    breaks="the phase is lost",
    demo="""
import numpy as np
from pyproximal.proximal import L1Ball
f = L1Ball(2, 1.)
x = np.array([2 - 1j, 1 - 3j])
assert np.allclose(f.prox(x, 1.), np.conj(f.prox(np.conj(x), 1.)))
""")

bug(id="r42_l21_sigma0", property="C06", file="proximal/L21.py",
    edits=[("        x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)\n", "        x = self.sigma * x.ravel() / np.maximum(aux, self.sigma * max(1.0, tau))\n")],
    needs="the dual prox of the group norm with a step above one",
    breaks="the dual prox is no longer the projection on the dual ball",
    demo="""
import numpy as np
from pyproximal.proximal import L21
f = L21(2)
assert np.allclose(f.proxdual(np.array([3., 4.]), 10.), [.6, .8])
""")
