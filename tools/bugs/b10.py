"""Tenth batch."""
BUGS = []


def bug(**k):
    BUGS.append(k)

bug(id="p02_etp_gamma", property="C03", file="proximal/ETP.py",
    edits=[("        k = tau * self.sigma / (1 - np.exp(-self.gamma))\n", "        k = tau * self.sigma / max(1 - np.exp(-self.gamma), 1e-3)\n")],
    needs="a penalty with a very small gamma", breaks="the stationary points are those of a weaker penalty",
    demo="""
import numpy as np
from pyproximal import ETP
f = ETP(1., 1e-4)
y = f.prox(np.array([3.]), 1.)
z = np.linspace(0, 3, 30001)
m = np.min(f.elementwise(z) + (z - 3) ** 2 / 2)
assert f(y) + (y[0] - 3) ** 2 / 2 <= m + 1e-6, y
""")

bug(id="p03_geman_tie", property="C03", file="proximal/Geman.py",
    edits=[("            < np.abs(x[idx]) ** 2 / 2\n", "            < np.abs(x[idx]) ** 2 / 2 + 1e-9\n")],
    needs="entries and weights much smaller than one", breaks="small entries are kept although zero has a smaller objective",
    demo="""
import numpy as np
from pyproximal import Geman
u = 1e-6
a, b = Geman(2., 1.), Geman(2. * u ** 2, u)
x = np.linspace(0.2, 3, 60)
p, q = a.prox(x, 1.), b.prox(x * u, 1.)
assert np.allclose(q / u, p), (p, q / u)
""")

bug(id="p04_svp_rank", property="C10", file="proximal/SingularValuePenalty.py",
    edits=[("        X = np.dot(U * self.penalty.prox(S, tau), Vh)\n",
            "        S = np.where(S > 1e-6 * S[0], S, 0)\n        X = np.dot(U * self.penalty.prox(S, tau), Vh)\n")],
    needs="a matrix with singular values spread over more than six orders of magnitude", breaks="small singular values are dropped",
    demo="""
import numpy as np
from pyproximal import SingularValuePenalty, L2
X = np.diag([1e4, 1e-3])
y = SingularValuePenalty((2, 2), L2()).prox(X.ravel(), 1.).reshape(2, 2)
assert abs(y[1, 1] - 5e-4) < 1e-8, y
""")

bug(id="p06_log1_delta", property="C03", file="proximal/Log.py",
    edits=[("        thresh = np.sqrt(2 * tau1) - self.delta\n", "        thresh = np.sqrt(2 * tau1)\n")],
    needs="a large delta, and an entry just below the square root of twice the step", breaks="entries between the two thresholds are set to zero",
    demo="""
import numpy as np
from pyproximal import Log1
f = Log1(1., 0.5)
y = f.prox(np.array([1.3]), 1.)
assert y[0] > 0.1, y
""")

bug(id="p07_huber_floor", property="C01", file="proximal/Huber.py",
    edits=[("        mask = xabs > self.alpha\n", "        mask = xabs > max(self.alpha, 1e-3)\n")],
    needs="a threshold and entries below one thousandth", breaks="the quadratic branch is used beyond its range",
    demo="""
import numpy as np
from pyproximal import Huber
assert abs(Huber(1e-5)(np.array([1e-4])) - (1e-4 - 5e-6)) < 1e-12
""")

bug(id="p08_qeind_unique", property="C03", file="proximal/QuadraticEnvelope.py",
    edits=[("                z = np.sort(rnew[istart : iend + 1])[::-1]\n".replace("                ", "            "),
            "                z = np.unique(rnew[istart : iend + 1])[::-1]\n".replace("                ", "            "))],
    needs="all the scaled entries around the cut equal", breaks="no interval is left to search",
    demo="""
import numpy as np
from pyproximal import QuadraticEnvelopeCardIndicator
f = QuadraticEnvelopeCardIndicator(1)
y = f.prox(np.array([2., 1.]), 0.5)
y = f.prox(np.array([4., 2., -1., 2.]), 0.5)
assert np.all(np.isfinite(y)), y
""")

bug(id="p09_quad_const", property="C01", file="proximal/Quadratic.py",
    edits=[("            f = self.c\n", "            f = 0.0\n")],
    needs="a quadratic with neither operator nor vector", breaks="the constant is dropped",
    demo="""
import numpy as np
from pyproximal import Quadratic
assert Quadratic(c=3.)(np.ones(2)) == 3.
""")

bug(id="p10_orth_alpha1", property="C08", file="proximal/Orthogonal.py",
    edits=[("        if self.partial:\n", "        if self.partial and self.alpha != 1.0:\n")],
    needs="a partially orthogonal operator with unit scale, such as a restriction", breaks="the part of the vector in the null space is set to zero",
    demo="""
import numpy as np, pylops
from pyproximal import Orthogonal, L1
Q = pylops.Restriction(4, [0, 2])
y = Orthogonal(L1(), Q, partial=True, alpha=1.).prox(np.array([3., 5., -2., 7.]), 1.)
assert np.allclose(y, [2., 5., -1., 7.]), y
""")

bug(id="p12_x0_from_z0", property="C21", file="optimization/primal.py",
    edits=[("            x0 = z0.copy()  # type: ignore[union-attr]\n", "            x0 = 0 * z0  # type: ignore[union-attr]\n")],
    needs="only the second initial vector given, and an order which uses the first", breaks="the missing initial vector is zero instead of a copy of the given one",
    demo="""
import numpy as np
from pyproximal import L1, L2
from pyproximal.optimization.primal import ADMM
its = []
ADMM(L2(b=np.ones(2)), L1(), None, 1., niter=1, z0=np.array([5., -4.]), gfirst=True, callback=lambda x: its.append(x.copy()))
z = np.array([4., -3.])
assert np.allclose(its[0], (z + 1) / 2), its
""")

bug(id="p13_z0_from_op", property="C21", file="optimization/primal.py",
    edits=[("            z0 = Op @ x0\n", "            z0 = 0 * (Op @ x0)\n")],
    needs="no second initial vector, and a first one which is not zero", breaks="the split variable starts at zero instead of the image of the initial guess",
    demo="""
import numpy as np, pylops
from pyproximal import L1, L2
from pyproximal.optimization.primal import LinearizedADMM
its = []
A = pylops.MatrixMult(np.array([[1., .5], [0., 1.]]))
x0 = np.array([3., -2.])
f = L2(b=np.ones(2))
LinearizedADMM(f, L1(), A, x0, 1., .3, niter=1, callback=lambda x: its.append(x.copy()))
assert np.allclose(its[0], f.prox(x0, .3)), its
""")

bug(id="p14_moreau_nan", property="C29", file="utils/moreau.py",
    edits=[("    if np.allclose(x, p + pdual, atol=tol):\n", "    if not np.any(np.abs(x - (p + pdual)) > tol + 1e-5 * np.abs(p + pdual)):\n")],
    needs="an operator whose dual gives undefined values", breaks="undefined values are taken for a verified identity",
    demo="""
import numpy as np
from pyproximal import L2
from pyproximal.utils.moreau import moreau
class W(L2):
    def proxdual(self, x, tau):
        return np.full_like(x, np.nan)
assert not moreau(W(), np.ones(3), 1., raiseerror=False)
""")

bug(id="p15_soft_c64", property="C02", file="proximal/L1.py",
    edits=[("        x1 = np.maximum(np.abs(x) - thresh, 0.0) * np.exp(1j * np.angle(x))\n",
            "        x1 = np.maximum(np.abs(x) - thresh, 0.0) * np.exp(1j * np.angle(x)).astype(np.complex64)\n")],
    needs="complex vectors and a look at more than seven digits", breaks="the phase is rounded to single precision",
    demo="""
import numpy as np
from pyproximal import L1
x = np.array([3. + 4j, -1. + 2j])
y = L1().prox(x, 1.)
assert np.allclose(y, x * (1 - 1 / abs(x)), rtol=1e-12), y
""")

bug(id="p17_hyper_bracket", property="C04", file="projection/Box.py",
    edits=[("        while fun(bisect_upper, x) > 0:\n            bisect_upper *= 2\n",
            "        while fun(bisect_upper, x) > 0 and bisect_upper < 2**16:\n            bisect_upper *= 2\n")],
    needs="a point further than 65536 multiples of the normal from the plane", breaks="the bracket does not contain the multiplier",
    demo="""
import numpy as np
from pyproximal.projection import HyperPlaneBoxProj
y = HyperPlaneBoxProj(np.array([1., 1.]), 1.)(np.array([3e6, 3e6]))
assert np.allclose(y, .5, atol=1e-3), y
""")

bug(id="p18_intersection_pairs", property="C05", file="proximal/Intersection.py",
    edits=[("                for i2 in range(i1 + 1, self.k):\n", "                for i2 in range(i1 + 1, min(self.k, i1 + 3)):\n")],
    needs="more than three vectors, two of them far apart in order and in value", breaks="only neighbouring vectors are compared",
    demo="""
import numpy as np
from pyproximal import Intersection
x = np.array([[0.], [.4], [.8], [1.2]])
assert not Intersection(4, 1, 1.)(x.ravel())
""")

bug(id="p19_affine_norm", property="C05", file="proximal/AffineSet.py",
    edits=[("        if np.allclose(self.Op.matvec(x), self.b):\n", "        if np.linalg.norm(self.Op.matvec(x) - self.b) <= 1e-5 * np.linalg.norm(self.b) + 1e-8:\n")],
    needs="right-hand sides of very different size", breaks="an equation with a small right-hand side may be violated",
    demo="""
import numpy as np, pylops
from pyproximal import AffineSet
f = AffineSet(pylops.MatrixMult(np.eye(2)), np.array([1e6, 1.]), 10)
assert not f(np.array([1e6, 3.]))
""")

bug(id="p22_l10_inplace", property="C16", file="projection/L0.py",
    edits=[("        xc = x.copy()\n", "        xc = np.ascontiguousarray(x)\n")],
    needs="the input matrix used again after the call", breaks="the input is overwritten",
    demo="""
import numpy as np
from pyproximal.projection import L10BallProj
x = np.array([[1., 2., 3.]]); c = x.copy()
L10BallProj(1)(x)
assert np.array_equal(x, c), x
""")

bug(id="p23_quad_square", property="C15", file="proximal/Quadratic.py",
    edits=[("            if Op.shape[0] != Op.shape[1]:\n", "            if Op.shape[0] < Op.shape[1]:\n")],
    needs="a tall operator", breaks="an operator with more rows than columns is accepted",
    demo="""
import numpy as np, pylops
from pyproximal import Quadratic
try:
    Quadratic(pylops.MatrixMult(np.ones((3, 2))), np.ones(2))
except ValueError:
    pass
else:
    raise AssertionError
""")
