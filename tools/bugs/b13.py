BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="m03_ipalm_restart", property="C25", file="optimization/palm.py",
    edits=[("        # x step\n        z = x + a[0] * (x - xold)", "        # x step (with a restart of the inertia)\n        if iiter % 20 == 19:\n            xold = x\n        z = x + a[0] * (x - xold)")],
    needs="twenty iterations of the inertial algorithm",
    breaks="the inertial term is dropped in one iteration",
    demo="""
import numpy as np
from pyproximal.optimization.palm import iPALM
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
d = np.array([4., 1., .5, 2.])
X, Y = np.array([[1.], [.2]]), np.array([[.3, 1.]])
mk = lambda: LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
H = mk()
x, y = iPALM(H, None, None, X.ravel(), Y.ravel(), gammaf=3., gammag=3., a=[.5, .5], niter=20)
u, v = X.ravel(), Y.ravel()
uo, vo = u, v
for _ in range(20):
    z = u + .5 * (u - uo); H.updatey(v); ck = 3. * H.ly(v)
    uo, u = u, z - H.gradx(z) / ck
    H.updatex(u); z = v + .5 * (v - vo); dk = 3. * H.lx(u)
    vo, v = v, z - H.grady(z) / dk
assert np.allclose(x, u, rtol=1e-9, atol=1e-12), (x, u)
""")

bug(id="m09_dykstra_200", property="C09", file="proximal/_Dykstra.py",
    edits=[("    w = w / w.sum()\n\n    for _ in range(niter):", "    w = w / w.sum()\n\n    for _ in range(min(niter, 200)):")],
    needs="a sum of three or more terms whose iterations converge slowly",
    breaks="the iterations stop before the result has converged",
    demo="""
import numpy as np
from pyproximal.proximal import Sum, L1, L2, HalfSpace
t = .05
f = Sum([HalfSpace(np.array([1., 0.]), 0.), HalfSpace(np.array([-np.cos(t), np.sin(t)]), 0.), L1(sigma=1e-3)], niter=50000, tol=0.)
g = Sum([HalfSpace(np.array([1., 0.]), 0.), HalfSpace(np.array([-np.cos(t), np.sin(t)]), 0.), L1(sigma=1e-3)], niter=200, tol=0.)
x = np.array([1., 3.])
assert np.abs(f.prox(x, 1.) - g.prox(x, 1.)).max() > 1e-6
""")

bug(id="m10_tv_100", property="C12", file="proximal/TV.py",
    edits=[("        while iter <= niter:", "        while iter <= min(niter, 100):")],
    needs="more than a hundred iterations",
    breaks="the iterations stop before the result has converged",
    demo="""
import numpy as np
from pyproximal.proximal import TV
x = np.sin(np.arange(60.)) * 3
a = TV((60,), sigma=50., niter=100, rtol=0.).prox(x, 1.)
b = TV((60,), sigma=50., niter=3000, rtol=0.).prox(x, 1.)
assert np.abs(a - b).max() > 1e-9, np.abs(a - b).max()
""")

bug(id="m12_intersection_50", property="C04", file="projection/Intersection.py",
    edits=[("        for _ in range(self.niter):", "        for _ in range(min(self.niter, 50)):")],
    needs="several vectors that are far apart compared with the allowed differences",
    breaks="the point is not in the intersection",
    demo="""
import numpy as np
from pyproximal.projection import IntersectionProj
k = 8
s = np.abs(np.subtract.outer(np.arange(k), np.arange(k))) * 1e-3 + 0.
P = IntersectionProj(k, 1, s, niter=20000, tol=0.)
Q = IntersectionProj(k, 1, s, niter=50, tol=0.)
x = np.arange(float(k)) ** 2
assert np.abs(P(x) - Q(x)).max() > 1e-6
""")
