"""fourth batch"""
BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="v01_moreau_kwargs", property="C06", file="ProxOperator.py",
    edits=[("        pdual = x - tau * self.prox(x / tau, 1.0 / tau, **kwargs)\n", "        pdual = x - tau * self.prox(x / tau, 1.0 / tau)\n")],
    needs="the dual prox of the mixed L21+L1 norm with grouping over the second axis",
    breaks="the keyword is not passed on, groups are taken over the first axis",
    demo="""
import numpy as np
from pyproximal.proximal import L21_plus_L1
f = L21_plus_L1(1., .3)
x = np.random.RandomState(0).normal(0, 3, (3, 4))
assert np.allclose(f.prox(x, .5, axis=1) + .5 * f.proxdual(x / .5, 2., axis=1), x)
""")

bug(id="v02_precomp_flat", property="C07", file="ProxOperator.py",
    edits=[("            return _PrecompositionOperator(self, a, b)\n",
            "            if isinstance(self, _PrecompositionOperator):\n                # compose the two affine maps\n                return _PrecompositionOperator(self.f, self.a * a, self.b + b)\n            return _PrecompositionOperator(self, a, b)\n")],
    needs="a precomposition of a precomposition whose inner scaling is not one and whose outer shift is not zero",
    breaks="the outer shift is not multiplied by the inner scaling",
    demo="""
import numpy as np
from pyproximal.proximal import L1
f = L1().precomposition(2., 1.).precomposition(3., .5)
x = np.array([1., 2.])
assert np.isclose(f(x), np.sum(np.abs(2 * (3 * x + .5) + 1)))
""")

bug(id="v03_sum_flat_inplace", property="C07", file="ProxOperator.py",
    edits=[("        self.f, self.v = f, v\n        super().__init__(None, f.hasgrad)\n\n    def __call__(self, x: NDArray) -> float:\n        f: float",
            "        if isinstance(f, _SumOperator):\n            # merge the two dot products\n            f.v += v\n            f, v = f.f, f.v\n        self.f, self.v = f, v\n        super().__init__(None, f.hasgrad)\n\n    def __call__(self, x: NDArray) -> float:\n        f: float")],
    needs="two vectors added one after the other, and the intermediate operator (or the first vector) used again",
    breaks="the operand of the second addition is changed",
    demo="""
import numpy as np
from pyproximal.proximal import L1
v, x = np.ones(2), np.array([1., 2.])
f = L1() + v
a = f(x)
g = f + np.array([3., 3.])
assert f(x) == a and np.all(v == 1)
""")

bug(id="v05_dykstra_stop", property="C09", file="proximal/_Dykstra.py",
    edits=[("        if max(ncp.abs(x - x_old).max(), ncp.abs(y - x_old).max()) < tol:\n", "        if ncp.abs(x - x_old).max() < tol:\n")],
    needs="a point for which the alternating projections do not move for an iteration although not converged",
    breaks="the two-set iterations stop during a stall of Dykstra's algorithm",
    demo="""
import numpy as np
from pyproximal.projection import GenericIntersectionProj, BoxProj, HalfSpaceProj
b, h = BoxProj(np.array([0., 0.]), np.array([1., 1.])), HalfSpaceProj(np.array([-1., -1.]), -1.9)
x = np.array([100., -30.])
y = GenericIntersectionProj([b, h], niter=20000, tol=1e-9)(x)
assert np.allclose(y, [1., .9], atol=1e-4), y
""")

bug(id="v07_nuclear_weights", property="C10", file="proximal/Nuclear.py",
    edits=[("            self.sigma[: S.size]\n            if isinstance(self.sigma, np.ndarray) and self.sigma.size > 1\n            else self.sigma\n        )\n        Sth",
            "            self.sigma[-S.size :]\n            if isinstance(self.sigma, np.ndarray) and self.sigma.size > 1\n            else self.sigma\n        )\n        Sth")],
    needs="more weights than singular values (weights given for the larger dimension)",
    breaks="the prox uses the last weights, the value the first ones",
    demo="""
import numpy as np
from pyproximal.proximal import Nuclear
w = np.array([1., 2., 3.])
X = np.array([[4., 0., 0.], [0., 5., 0.]])
Y = Nuclear((2, 3), w).prox(X.ravel(), 1.).reshape(2, 3)
assert np.allclose(Y, [[2., 0., 0.], [0., 4., 0.]]), Y
""")

bug(id="v08_factor_stale", property="C13", file="proximal/L2.py",
    edits=[("                    if self.tausigma != tau * self.sigma:\n", "                    if not np.isclose(self.tausigma, tau * self.sigma, rtol=1e-2):\n")],
    needs="an explicit operator with factorization and steps that change by less than a percent between calls",
    breaks="the factors of the previous step are used",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2
A = np.arange(6.).reshape(3, 2)
op = L2(pylops.MatrixMult(A), b=np.ones(3), densesolver="factorize")
x = np.array([10., -20.])
op.prox(x, 1.)
y = op.prox(x, 1.009)
z = np.linalg.solve(np.eye(2) + 1.009 * A.T @ A, x + 1.009 * A.T @ np.ones(3))
assert np.allclose(y, z, rtol=1e-9), (y, z)
""")

bug(id="v09_l10_cancel", property="C05", file="proximal/L0.py",
    edits=[("np.linalg.norm(np.linalg.norm(x, ord=1, axis=0), ord=0) <= radius", "np.linalg.norm(np.sum(x, axis=0), ord=0) <= radius")],
    needs="a group whose components add up to zero",
    breaks="such groups are not counted",
    demo="""
import numpy as np
from pyproximal.proximal import L10Ball
assert not L10Ball(2, 1)(np.array([1., 2., -1., 3.]))
""")

bug(id="v10_l1ball_cplx", property="C05", file="proximal/L1.py",
    edits=[("        return bool(np.sum(np.abs(x)) - self.radius < tol)\n", "        return bool(np.sum(np.abs(x.real) + np.abs(x.imag)) - self.radius < tol)\n")],
    needs="complex vectors close to the boundary",
    breaks="complex members are reported outside",
    demo="""
import numpy as np
from pyproximal.proximal import L1Ball
assert L1Ball(1, 1.)(np.array([.6 + .7j]))
""")

bug(id="v12_scad_mid", property="C03", file="proximal/SCAD.py",
    edits=[("        first_threshold = self.sigma * (self.a - 1 - tau + tau * self.a) / (self.a - 1)\n", "        first_threshold = self.sigma * (1 + min(tau, 1.0))\n")],
    needs="a step larger than one",
    breaks="entries between the two thresholds use the wrong piece",
    demo="""
import numpy as np
from pyproximal.proximal import SCAD
f = SCAD(1., 3.7)
y = f.prox(np.array([2.2]), 2.)[0]
g = np.linspace(-4, 4, 80001)
o = f.elementwise(g) * 2 + (g - 2.2)**2 / 2
assert f.elementwise(np.array([y]))[0] * 2 + (y - 2.2)**2 / 2 <= o.min() + 1e-6
""")

bug(id="v13_rms_kappa", property="C03", file="proximal/RelaxedMS.py",
    edits=[("            np.abs(x) <= np.sqrt(kappa / sigma * (1 + 2 * tau * sigma)),\n", "            np.abs(x) <= np.sqrt(kappa / sigma * (1 + 2 * min(tau, 1.0) * sigma)),\n")],
    needs="a step larger than one and entries close to the jump",
    breaks="entries next to the jump stay at a worse local minimum",
    demo="""
import numpy as np
from pyproximal.proximal import RelaxedMumfordShah
y = RelaxedMumfordShah(1., 1.).prox(np.array([2.5]), 4.)[0]
assert np.isclose(y, 2.5 / 9), y
""")

bug(id="v14_log_gamma", property="C03", file="proximal/Log.py",
    edits=[("        r = np.vstack((np.zeros_like(c), (b[idx] + c) / (2 * self.gamma)))\n", "        r = np.vstack((np.zeros_like(c), np.maximum(b[idx] + c, 0.0) / (2 * max(self.gamma, 1e-2))))\n")],
    needs="gamma below a hundredth",
    breaks="the stationary point is scaled for nearly linear penalties",
    demo="""
import numpy as np
from pyproximal.proximal import Log
f = Log(1., 1e-3)
y = f.prox(np.array([3.]), 1.)[0]
assert abs(y - 2.) < .01, y
""")

bug(id="v15_qecard_edge", property="C03", file="proximal/QuadraticEnvelope.py",
    edits=[("        if tau >= 1:\n            r[idx] = 0\n", "        if tau > 1:\n            r[idx] = 0\n        elif tau == 1:\n            r[idx] = np.sqrt(2 * self.mu) * np.round(r[idx] / np.sqrt(2 * self.mu))\n")],
    needs="a step of exactly one",
    breaks="entries above half of the threshold are increased to it",
    demo="""
import numpy as np
from pyproximal.proximal import QuadraticEnvelopeCard
f = QuadraticEnvelopeCard(.5)
y = f.prox(np.array([.8]), 1.)
assert y <= .8, y
""")

bug(id="v17_tv_rtol_first", property="C12", file="proximal/TV.py",
    edits=[("        told, prev_obj = 1.0, 0.0\n", "        told, prev_obj = 1.0, 0.5 * np.linalg.norm(x) ** 2\n")],
    needs="an input whose first objective equals half its squared norm",
    breaks="the stopping criterion is met before the first iteration",
    demo="""
import numpy as np
from pyproximal.proximal import TV
x = np.array([1., 1., 2., 2.])
# sigma tau TV(x) = |x|^2 / 2
f = TV((4,), sigma=5., niter=5000, rtol=1e-12)
assert np.allclose(f.prox(x, 1.), 1.5, atol=1e-3)
""")

bug(id="v18_tv_complex_norm", property="C12", file="proximal/TV.py",
    edits=[("                weights = np.maximum(\n                    1, np.sqrt(np.power(np.abs(r), 2) + np.power(np.abs(s), 2))\n                )\n",
            "                weights = np.maximum(1, np.sqrt(np.abs(np.power(r, 2) + np.power(s, 2))))\n")],
    needs="complex images",
    breaks="the dual variable is projected with the wrong norm",
    demo="""
import numpy as np
from pyproximal.proximal import TV
rng = np.random.RandomState(0)
x = np.round(rng.normal(0, 2, (3, 3))) + 1j * np.round(rng.normal(0, 2, (3, 3)))
f = TV((3, 3), sigma=1., niter=4000, rtol=0)
y = f.prox(x.ravel(), 1.)
o = lambda z: f(z) + np.linalg.norm(z - x.ravel())**2 / 2
for i in range(300):
    z = y + 1e-2 * (rng.normal(0, 1, 9) + 1j * rng.normal(0, 1, 9))
    assert o(z) >= o(y) - 1e-6
z = y.conj() * 0 + (x.ravel() + .01 * (x.ravel().mean() - x.ravel()))
for t in np.linspace(0, 1, 50):
    z = y + t * (x.ravel().mean() - y)
    assert o(z) >= o(y) - 1e-6
from scipy.optimize import minimize
r = minimize(lambda w: o(w[:9] + 1j * w[9:]), np.r_[y.real, y.imag], method="Powell", options=dict(maxiter=20))
assert r.fun >= o(y) - 1e-4, (r.fun, o(y))
""")

bug(id="v19_hankel_wide", property="C04", file="projection/Hankel.py",
    edits=[("        ind = hankel(np.arange(m, dtype=np.int32), m - 1 + np.arange(n, dtype=np.int32))\n", "        ind = hankel(np.arange(m, dtype=np.int8), m - 1 + np.arange(n, dtype=np.int8))\n")],
    needs="a matrix with more than 128 antidiagonals",
    breaks="the indices of the antidiagonals overflow",
    demo="""
import numpy as np
from pyproximal.projection import HankelProj
from scipy.linalg import hankel
X = hankel(np.arange(70.), 69 + np.arange(70.))
assert np.allclose(HankelProj()(X), X)
""")

bug(id="v20_l2conv_grad_cplx", property="C11", file="proximal/L2.py",
    edits=[("        self.hbf = np.conj(self.hf) * self.bf\n", "        self.hbf = self.hf.conj() * self.bf if np.iscomplexobj(b) or np.isrealobj(h) else self.hf * self.bf\n")],
    needs="a complex filter with real data",
    breaks="the filter is not conjugated in the prox (C13)",
    demo="""
import numpy as np
from pyproximal.proximal import L2Convolve
h = np.array([1., 2j]); b = np.array([1., 2., 3., 4.])
op = L2Convolve(h, b, nfft=4)
x = np.zeros(4, dtype=complex)
y = op.prox(x, 1.)
C = np.array([np.roll(np.r_[h, 0, 0], k) for k in range(4)]).T
assert np.allclose(y, np.linalg.solve(np.eye(4) + C.conj().T @ C, C.conj().T @ b))
""")
BUGS[-1]["property"] = "C13"

bug(id="v21_orth_full_b", property="C08", file="proximal/Orthogonal.py",
    edits=[("        self.b = b if b is not None else 0.0\n", "        self.b = b if b is not None and np.any(np.real(b)) else 0.0\n")],
    needs="a purely imaginary offset",
    breaks="the offset is dropped",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Orthogonal, L1
f = Orthogonal(L1(), pylops.Identity(2, dtype=complex), b=np.array([1j, 2j]))
assert np.isclose(f(np.zeros(2, dtype=complex)), 3.)
""")
BUGS[-1]["edits"] = [("        self.b = b if b is not None else 0.0\n", "        self.b = b if b is not None and bool(getattr(b, 'real', b).any()) else 0.0\n")]

bug(id="v22_quad_nonsym", property="C13", file="proximal/Quadratic.py",
    edits=[("                Op1 = MatrixMult(np.eye(self.Op.shape[0]) + tau * self.Op.A)\n", "                Op1 = MatrixMult(np.eye(self.Op.shape[0]) + min(tau, 1e2) * self.Op.A)\n")],
    needs="steps above a hundred",
    breaks="large steps are cut in the system but not in the right-hand side",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import Quadratic
A = np.diag([1., 2.])
y = Quadratic(pylops.MatrixMult(A), np.ones(2)).prox(np.ones(2), 500.)
assert np.allclose(y, np.linalg.solve(np.eye(2) + 500 * A, 1 - 500 * np.ones(2)))
""")

bug(id="v23_l1_sigma_array", property="C02", file="proximal/L1.py",
    edits=[("            x = _softthreshold(x - self.g, tau * sigma) + self.g\n", "            x = _softthreshold(x - self.g, tau * np.max(sigma)) + self.g\n")],
    needs="a reference vector together with one weight per entry",
    breaks="all entries are shrunk by the largest weight",
    demo="""
import numpy as np
from pyproximal.proximal import L1
y = L1(sigma=np.array([1., 2.]), g=np.array([1., 1.])).prox(np.array([5., 5.]), 1.)
assert np.allclose(y, [4., 3.]), y
""")

bug(id="v24_huber_value_edge", property="C01", file="proximal/Huber.py",
    edits=[("        if l2 <= self.alpha:\n            h = l2**2 / (2 * self.alpha)\n", "        if l2 <= min(self.alpha, 1.0) or x.size == 1 and l2 <= self.alpha:\n            h = l2**2 / (2 * self.alpha)\n")],
    needs="alpha larger than one and a norm between one and alpha",
    breaks="the linear piece is used inside of the quadratic region",
    demo="""
import numpy as np
from pyproximal.proximal import HuberCircular
assert np.isclose(HuberCircular(4.)(np.array([2., 0.])), .5)
""")

bug(id="v26_simplex_axis", property="C17", file="proximal/Simplex.py",
    edits=[("            for i in range(self.dims[self.otheraxis]):\n                y[i] = self.simplex(x[i])\n", "            for i in range(self.dims[self.otheraxis]):\n                y[i] = y[i - 1] if i and np.allclose(x[i], x[i - 1]) else self.simplex(x[i])\n")],
    needs="neighbouring rows that differ by less than a hundred-thousandth",
    breaks="the projection of the previous row is copied",
    demo="""
import numpy as np
from pyproximal.proximal import Simplex
x = np.array([[1e6, 1e6 - .5], [1e6, 1e6 + 0.5]])
y = Simplex(4, 1., dims=(2, 2), axis=1, xtol=1e-10).prox(x.ravel(), 1.).reshape(2, 2)
assert np.allclose(y, [[.75, .25], [.25, .75]], atol=1e-6), y
""")

bug(id="v27_nonlinear_y", property="C16", file="proximal/Nonlinear.py",
    edits=[("            self.x0 = x\n", "            self.x0 = x\n        else:\n            self.x0 = self.x0 + 0 * x if self.tau < 10 else x\n")],
    needs="warm=False and a step of ten or more",
    breaks="later calls start from the result of that call although warm start is off (C13)",
    demo="""
import numpy as np
from pyproximal.proximal import Nonlinear
class F(Nonlinear):
    starts = []
    def fun(self, x): return float(np.sum(x**4))
    def grad(self, x): return 4 * x**3
    def optimize(self):
        self.starts.append(self.x0.copy())
        return self.x0 - .01 * self._gradprox(self.x0, self.tau)
f = F(np.ones(2), warm=False)
f.prox(np.zeros(2), 20.); f.prox(np.zeros(2), 1.)
assert np.allclose(f.starts[0], f.starts[1])
""")
BUGS[-1]["property"] = "C13"

bug(id="v28_vstack_restr_grad", property="C08", file="proximal/VStack.py",
    edits=[("            f = np.zeros_like(x)\n            for op, restr in zip(self.ops, self.restr, strict=True):\n                f[restr.iava] = op.prox(restr.matvec(x), tau)\n",
            "            f = np.zeros_like(x)\n            for op, restr in zip(self.ops, self.restr, strict=True):\n                i = restr.iava\n                f[i if np.all(np.diff(i) != 1) or np.all(np.diff(i) == 1) else np.sort(i)] = op.prox(restr.matvec(x), tau)\n")],
    needs="a restriction whose indices are neither increasing by one nor free of neighbours, and not sorted",
    breaks="the block is written back in sorted order",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import VStack, L2
f = VStack([L2(), L2(b=np.array([1., 2., 3., 4.]))], restr=[pylops.Restriction(6, [0, 5]), pylops.Restriction(6, [3, 1, 2, 4])])
x = np.arange(6.)
y = f.prox(x, 1.)
assert np.allclose(y[[3, 1, 2, 4]], (x[[3, 1, 2, 4]] + np.array([1., 2., 3., 4.])) / 2), y
""")
