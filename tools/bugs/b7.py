"""seventh batch"""
BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="y01_gi_mean", property="C05", file="proximal/GenericIntersection.py",
    edits=[("np.abs(x - proj(x)).max() < self.tol", "np.abs(x - proj(x)).mean() < self.tol")],
    needs="a long vector violating one set in few entries and by little",
    breaks="points outside of the intersection are reported as members",
    demo="""
import numpy as np
from pyproximal.proximal import GenericIntersectionProx
from pyproximal.projection import BoxProj
f = GenericIntersectionProx([BoxProj(-1, 1)], tol=1e-3)
x = np.zeros(50); x[3] = 1.1
assert f(x) is False or f(x) == False
""")

bug(id="y03_sum_zero", property="C01", file="proximal/Sum.py",
    edits=[("        if vals:\n            return sum(vals)\n", "        if any(vals):\n            return sum(vals)\n")],
    needs="a sum whose finite terms all vanish at the point",
    breaks="the value 0 becomes True, which counts as one",
    demo="""
import numpy as np
from pyproximal.proximal import Sum, L1, L2
v = Sum([L1(), L2()])(np.zeros(3))
assert v == 0 and v is not True, v
""")

bug(id="y04_dykstra_stop", property="C09", file="proximal/_Dykstra.py",
    edits=[("        if max(ncp.abs(u_old - u).max(), ncp.abs(u_prev - u).max()) < tol:\n", "        if ncp.abs(u_old - u).max() < tol:\n")],
    needs="more than two sets and a start whose last projection does not move although the sets disagree",
    breaks="the iterations stop too early, the result is not in the intersection",
    demo="""
import numpy as np
from pyproximal.projection import GenericIntersectionProj, HalfSpaceProj
r = np.random.RandomState(0)
for _ in range(3000):
    W = r.randint(-3, 4, size=(3, 2)).astype(float); b = r.randint(0, 3, size=3).astype(float); x0 = r.randint(-5, 6, size=2).astype(float)
    if np.any(np.abs(W).sum(1) == 0): continue
    Q = [HalfSpaceProj(w, c) for w, c in zip(W, b)]
    x = GenericIntersectionProj(Q, niter=20000, tol=1e-10)(x0)
    assert np.all(W @ x <= b + 1e-6), (W, b, x0, x)
""")

bug(id="y05_qgrad_op", property="C11", file="proximal/L2.py",
    edits=[("        if self.q is not None and self.qgrad:\n", "        if self.q is not None and (self.qgrad or self.Op is not None):\n")],
    needs="data term with an operator, a dot-product term and qgrad=False",
    breaks="the gradient contains the dot-product term although it was switched off",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2
f = L2(Op=pylops.MatrixMult(np.eye(2)), b=np.zeros(2), q=np.ones(2), qgrad=False)
assert np.allclose(f.grad(np.ones(2)), 1.)
""")

bug(id="y06_conv_fft_axis", property="C13", file="proximal/L2.py",
    edits=[("axis=0 if h.ndim == 1 else self.dir)", "axis=0 if h.ndim == 1 else -1)")],
    needs="one filter per trace along the first axis of a square array padded to the same length",
    breaks="the filters are transformed along the wrong axis",
    demo="""
import numpy as np
from pyproximal.proximal import L2Convolve
r = np.random.RandomState(0)
h, b, x = r.normal(size=(4, 4)), r.normal(size=(4, 4)), r.normal(size=16)
f = L2Convolve(h, b, nfft=4, dims=(4, 4), dir=0)
X = x.reshape(4, 4)
Y = np.fft.ifft(np.fft.fft(h, axis=0) * np.fft.fft(X, axis=0), axis=0).real
assert np.isclose(f(x), .5 * np.linalg.norm(Y - b) ** 2)
""")

bug(id="y07_conv_cplx", property="C01", file="proximal/L2.py",
    edits=[("            np.fft.ifft(self.bf - self.hf * xf, axis=self.dir)\n        ) ** 2", "            np.fft.ifft(self.bf - self.hf * xf, axis=self.dir).real\n        ) ** 2")],
    needs="complex data, filter or model",
    breaks="the imaginary part of the misfit is dropped",
    demo="""
import numpy as np
from pyproximal.proximal import L2Convolve
f = L2Convolve(np.array([1.]), np.array([1j, 0.]), nfft=2)
assert np.isclose(f(np.zeros(2)), .5)
""")

bug(id="y08_sum_merge", property="C07", file="ProxOperator.py",
    edits=[("        if isinstance(v, (np.ndarray, cp_dtype)):\n            return _SumOperator(self, v)\n",
            "        if isinstance(v, (np.ndarray, cp_dtype)):\n            if isinstance(self, _SumOperator):\n                self.v = self.v + v\n                return self\n            return _SumOperator(self, v)\n")],
    needs="two different vectors added to the same sum, or the first sum used after the second addition",
    breaks="the first sum changes",
    demo="""
import numpy as np
from pyproximal.proximal import L1
f = L1() + np.ones(2)
g = f + np.ones(2)
assert np.isclose(f(np.ones(2)), 4.) and np.isclose(g(np.ones(2)), 6.)
""")

bug(id="y09_simplex_maxiter", property="C17", file="proximal/Simplex.py",
    edits=[("            maxiter=self.maxiter,\n            xtol=self.xtol,\n        )\n\n    def __call__", "            maxiter=min(self.maxiter, 40),\n            xtol=self.xtol,\n        )\n\n    def __call__")],
    needs="inputs of large magnitude (the bisection bracket is longer than 2^40 tolerances)",
    breaks="bisection fails to converge",
    demo="""
import numpy as np
from pyproximal.proximal import Simplex
x = Simplex(3, 1.)
y = x.prox(np.array([1e6, 1e6 + .5, 0.]), 1.)
assert np.allclose(y, [.25, .75, 0.], atol=1e-6)
""")

bug(id="y14_palm_floor2", property="C20", file="optimization/palm.py",
    edits=[("        if f <= ft or tau < 1e-12:\n", "        if f <= ft or tau < 1e-4:\n")],
    needs="a bilinear problem of large curvature without given step constants",
    breaks="a step without sufficient decrease is accepted",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.optimization.palm import PALM
x0, y0, d = np.array([300.]), np.array([500., -300.]), np.array([1., 2.])
H = LowRankFactorizedMatrix(x0.reshape(1, 1).copy(), y0.reshape(1, 2).copy(), d)
h0 = H(x0, y0)
x, y = PALM(H, None, None, x0, y0, gammaf=None, gammag=None, niter=1)
assert H(x, y) <= h0
""")

bug(id="y20_ly_conj", property="C26", file="utils/bilinear.py",
    edits=[("np.linalg.norm(Y @ np.conj(Y).T, \"fro\")", "np.linalg.norm(Y @ Y.T, \"fro\")")],
    needs="a complex second factor",
    breaks="the constant can be far too small",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
H = LowRankFactorizedMatrix(np.ones((2, 1)), np.array([[1., 1j]]), np.zeros(4))
assert np.isclose(H.ly(np.array([1., 1j])), 2.)
""")

bug(id="y23_gradtest_imag_y", property="C29", file="utils/gradtest.py",
    edits=[("    if complexflag:\n        r_or_i = np.random.randint(0, 2)\n", "    if complexflag:\n        r_or_i = np.random.randint(0, 2) if x_or_y == 0 else 0\n")],
    needs="an operator whose gradient is wrong in the imaginary part of the second factor only",
    breaks="it is always accepted",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.utils.gradtest import gradtest_bilinear
class W(LowRankFactorizedMatrix):
    def grady(self, y):
        return np.conj(super().grady(y))
r = np.random.RandomState(0)
c = lambda *s: r.normal(size=s) + 1j * r.normal(size=s)
H = W(c(2, 1), c(1, 2), c(4))
np.random.seed(0)
assert not all(gradtest_bilinear(H, complexflag=True, delta=1e-6, rtol=1e-3, atol=1e-4, raiseerror=False) for _ in range(100))
""")

bug(id="y25_qecard_one", property="C03", file="proximal/QuadraticEnvelope.py",
    edits=[("            r[idx] = np.maximum(0, (r[idx] - tau * np.sqrt(2 * self.mu)) / (1 - tau))\n",
            "            r[idx] = np.maximum(0, (r[idx] - tau * np.sqrt(2 * self.mu)) / max(1 - tau, 0.05))\n")],
    needs="a step slightly below one and an entry close to the threshold",
    breaks="such entries are shrunk too far",
    demo="""
import numpy as np
from pyproximal.proximal import QuadraticEnvelopeCard
f = QuadraticEnvelopeCard(.5)
assert np.isclose(f.prox(np.array([.995]), .99)[0], .5)
""")

bug(id="y29_halfspace_rtol", property="C04", file="projection/HalfSpace.py",
    edits=[("        if w_x <= self.b:\n", "        if w_x <= self.b or np.isclose(w_x, self.b):\n")],
    needs="a point barely outside of a half space with a large offset",
    breaks="the point is not projected",
    demo="""
import numpy as np
from pyproximal.projection import HalfSpaceProj
w = np.array([1., 2.])
x = HalfSpaceProj(w, 1000.)(np.array([1000.005, 0.]))
assert w @ x <= 1000. + 1e-9
""")

bug(id="y38_box_close", property="C05", file="proximal/Box.py",
    edits=[("        return bool(np.all((x >= self.lower) & (x <= self.upper)))\n", "        return bool(np.allclose(x, self.box(x)))\n")],
    needs="a point outside of a box with large bounds by a relative 1e-6",
    breaks="the point is reported as member",
    demo="""
import numpy as np
from pyproximal.proximal import Box
assert not Box(0., 1000.)(np.array([1000.005]))
""")

bug(id="y52_vstack_size", property="C15", file="proximal/VStack.py",
    edits=[("    def prox(self, x: NDArray, tau: float) -> NDArray:\n        if x.size != self.nx:\n", "    def prox(self, x: NDArray, tau: float) -> NDArray:\n        if x.size < self.nx:\n")],
    needs="a vector which is too long",
    breaks="the surplus entries are silently dropped",
    demo="""
import numpy as np
from pyproximal.proximal import VStack, L1
try:
    VStack([L1(), L1()], nn=[2, 2]).prox(np.ones(5), 1.)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""")

bug(id="y53_palm_resume", property="C20", file="optimization/palm.py",
    edits=[("        tau *= beta\n        iiterback += 1\n", "        tau *= 0.5 if beta < 0.3 else beta\n        iiterback += 1\n")],
    needs="step search with a small reduction factor",
    breaks="the given reduction factor is ignored",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.optimization.palm import PALM
x0, y0, d = np.array([3.]), np.array([5., -3.]), np.array([1., 2.])
H = LowRankFactorizedMatrix(x0.reshape(1, 1).copy(), y0.reshape(1, 2).copy(), d)
x, y = PALM(H, None, None, x0, y0, gammaf=None, gammag=None, niter=1, beta=.1)
R = (x0 * y0 - d)
g = R @ y0
t = 1.
while .5 * np.sum(((x0 - t * g) * y0 - d) ** 2) > .5 * R @ R - np.sum(g * g) * t / 2: t *= .1
assert np.allclose(x, x0 - t * g), (x, x0 - t * g)
""")

bug(id="y54_apd_tol", property="C23", file="optimization/primaldual.py",
    edits=[("        y = proxg.proxdual(y + mu * Axhat, mu)\n        ATy = A.rmatvec(y)\n", "        y = proxg.proxdual(y + mu * Axhat, mu)\n        if iiter == 0 or np.linalg.norm(y - yold) > tol:\n            ATy = A.rmatvec(y)\n")],
    needs="a linear term z and an iteration in which the dual variable does not change",
    breaks="the linear term is added once more",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, Box, L1
from pyproximal.optimization.primaldual import AdaptivePrimalDual
A = pylops.MatrixMult(np.eye(2))
its = []
b = np.array([3., 5.]); z = np.array([-1., -1.])
# the dual variable sits at its bound from the first iteration
x, _ = AdaptivePrimalDual(L2(b=b), L1(sigma=.1), A, np.array([20., 20.]), .5, .5, z=z, niter=60)
assert np.allclose(x, b - z - .1, atol=1e-4), x
""")

bug(id="y56_ppxa_xold", property="C24", file="optimization/primal.py",
    edits=[("    # initialize model\n    m = len(proxfs)\n    if weights is None:", "    # initialize model\n    m = len(proxfs)\n    if tol is not None:\n        tol = tol * max(1.0, ncp.abs(ncp.asarray(x0)).max())\n    if weights is None:")],
    needs="a large initial guess",
    breaks="the tolerance is scaled by the initial guess, the iterations stop too early",
    demo="""
import numpy as np
from pyproximal.proximal import L2
from pyproximal.optimization.primal import PPXA
x = PPXA([L2(b=np.array([1.])), L2(b=np.array([3.]))], np.array([1e6]), tau=1., niter=5000, tol=1e-6)
assert np.allclose(x, 2., atol=1e-4), x
""")

bug(id="y57_logprox_max", property="C03", file="proximal/Log.py",
    edits=[("        idx_minima = np.argmin(val, axis=0)\n", "        idx_minima = np.argmin(np.round(val, 10), axis=0)\n")],
    needs="entries of magnitude below 1e-5 with a weak penalty",
    breaks="small entries are set to zero although keeping them is better",
    demo="""
import numpy as np
from pyproximal.proximal import Log
f = Log(1e-7, 1.)
x = np.array([1e-6 * 3])
y = f.prox(x, 1.)
assert f(y) + (y - x)[0] ** 2 / 2 <= f(np.zeros(1)) + x[0] ** 2 / 2 - 1e-13
""")

bug(id="y59_hankel_call", property="C05", file="proximal/Hankel.py",
    edits=[("        return np.allclose(X, self.hankel_proj(X))\n", "        return np.allclose(X.real, self.hankel_proj(X).real)\n")],
    needs="complex matrices whose imaginary part is not Hankel",
    breaks="they are reported as members",
    demo="""
import numpy as np
from pyproximal.proximal import Hankel
assert not Hankel((2, 2))(np.array([1., 2. + 1j, 2. - 1j, 3.]))
""")

bug(id="y60_pd_z0", property="C23", file="optimization/primaldual.py",
    edits=[("    y = y0.copy() if y0 is not None else ncp.zeros(A.shape[0], dtype=x.dtype)\n    xhat = x.copy()\n", "    y = y0.copy() if y0 is not None and gfirst else ncp.zeros(A.shape[0], dtype=x.dtype)\n    xhat = x.copy()\n")],
    needs="an initial dual variable with the primal step first",
    breaks="the initial dual variable is ignored",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primaldual import PrimalDual
A = pylops.MatrixMult(np.eye(2)); b = np.array([1., 5.]); y0 = np.array([.5, -.3])
x = PrimalDual(L2(b=b), L1(), A, np.zeros(2), 1., .5, y0=y0, gfirst=False, niter=1)
assert np.allclose(x, (b - y0) / 2)
""")

bug(id="y61_denoise_shape", property="C27", file="optimization/pnp.py",
    edits=[("        xden = self.denoiser(x, tau)\n        return xden.ravel()\n", "        xden = self.denoiser(x, tau)\n        return xden.reshape(x.size, order=\"A\")\n")],
    needs="a denoiser returning a column-major array (e.g. a transposed result)",
    breaks="the pixels are permuted",
    demo="""
import numpy as np
from pyproximal.proximal import L2
from pyproximal.optimization.pnp import PlugAndPlay
r = np.random.RandomState(0); b = r.normal(size=6)
den = lambda x, t: np.asfortranarray(.5 * x)
den2 = lambda x, t: .5 * x
f = lambda d: PlugAndPlay(L2(b=b), d, (2, 3), np.zeros(6), tau=1., niter=3)[0]
assert np.allclose(f(den), f(den2))
""")

bug(id="y62_adjoint_tau", property="C06", file="ProxOperator.py",
    edits=[("        return self.f.proxdual(x, tau, **kwargs)\n", "        return self.f.proxdual(x, tau, **kwargs) if np.ndim(tau) == 0 else self.f.proxdual(x, 1.0 / tau, **kwargs)\n")],
    needs="the adjoint (conjugate) operator with an array of steps",
    breaks="the inverse steps are used",
    demo="""
import numpy as np
from pyproximal.proximal import Huber
f = Huber(1.); x = np.array([1., -4.]); t = np.array([.5, 2.])
assert np.allclose(f.H.prox(x, t), f.proxdual(x, t))
""")

bug(id="y63_tv_tiny", property="C12", file="proximal/TV.py",
    edits=[("                rel_obj = 2 * rtol\n", "                rel_obj = rtol / 2\n")],
    needs="signals of small magnitude (objective below 1e-10) with the stopping criterion on",
    breaks="the iterations stop at once and the input is returned",
    demo="""
import numpy as np
from pyproximal.proximal import TV
x = np.array([1e-6, -1e-6, 1e-6])
y = TV((3,), sigma=1., niter=500, rtol=1e-6).prox(x, 1e-5)
assert np.allclose(y, x.mean(), atol=1e-8), y
""")
