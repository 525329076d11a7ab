BUGS = []


def bug(**k):
    BUGS.append(k)


FREC = """
import numpy as np
from pyproximal.optimization.primal import %s
from pyproximal.proximal import L2, L1
d = np.array([1., .01])
f, g = L2(b=np.array([3., -2.])), L1(sigma=.1)
"""

bug(id="n03_fista_cap", property="C19", file="optimization/primal.py",
    edits=[("            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance", "            omega = min((told - 1.0) / t, 0.95)\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance")],
    needs="more than sixty iterations of accelerated proximal gradient (fista)",
    breaks="the extrapolation weight stops growing",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
A = np.diag([1., .01])
f, g = L2(Op=pylops.MatrixMult(A), b=np.array([3., -2.])), L1(sigma=1e-4)
x = ProximalGradient(f, g, np.zeros(2), tau=1., niter=120, acceleration="fista")
u = v = np.zeros(2)
t = 1.
for _ in range(120):
    w = g.prox(v - f.grad(v), 1.)
    t, s = (1 + np.sqrt(1 + 4 * t * t)) / 2, t
    u, v = w, w + (s - 1) / t * (w - u)
assert np.allclose(x, u, rtol=1e-8), (x, u)
""")

bug(id="n04_vdb_cap", property="C19", file="optimization/primal.py",
    edits=[("            omega = iiter / (iiter + 3)\n        elif acceleration == \"fista\":\n            told = t\n            t = (1.0 + np.sqrt(1.0 + 4.0 * t**2)) / 2.0\n            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance", "            omega = min(iiter, 30) / (min(iiter, 30) + 3)\n        elif acceleration == \"fista\":\n            told = t\n            t = (1.0 + np.sqrt(1.0 + 4.0 * t**2)) / 2.0\n            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        # tolerance")],
    needs="more than thirty iterations of accelerated proximal gradient (vandenberghe)",
    breaks="the extrapolation weight stops growing",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
A = np.diag([1., .01])
f, g = L2(Op=pylops.MatrixMult(A), b=np.array([3., -2.])), L1(sigma=1e-4)
x = ProximalGradient(f, g, np.zeros(2), tau=1., niter=120, acceleration="vandenberghe")
u = v = np.zeros(2)
for k in range(120):
    w = g.prox(v - f.grad(v), 1.)
    u, v = w, w + k / (k + 3) * (w - u)
assert np.allclose(x, u, rtol=1e-8), (x, u)
""")

bug(id="n06_niterback60", property="C20", file="optimization/primal.py",
    edits=[("    iiterback = 0\n    while iiterback < niterback:\n        z = proxg.prox(", "    iiterback = 0\n    while iiterback < min(niterback, 60):\n        z = proxg.prox(")],
    needs="a backtracking factor close to one and a large Lipschitz constant",
    breaks="the step found by backtracking does not satisfy the descent condition",
    demo="""
import numpy as np
from pyproximal.optimization.primal import ProximalGradient
from pyproximal.proximal import L2, L1
f, g = L2(b=np.array([3., -2.]), sigma=3000.), L1(sigma=.1)
j = []
ProximalGradient(f, g, np.zeros(2), tau=None, beta=.9, niter=1, niterback=100, callback=lambda x: j.append(f(x) + g(x)))
assert j[0] <= f(np.zeros(2)), j
""")

bug(id="n22_gpg_cap", property="C19", file="optimization/primal.py",
    edits=[("            omega = (told - 1.0) / t\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        if show:", "            omega = min((told - 1.0) / t, 0.9)\n        else:\n            omega = 0\n        y = x + omega * (x - xold)\n\n        # run callback\n        if callback is not None:\n            callback(x)\n\n        if show:")],
    needs="more than thirty iterations of the accelerated generalised proximal gradient (fista)",
    breaks="the extrapolation weight stops growing",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import GeneralizedProximalGradient
from pyproximal.proximal import L2, L1
f, g = L2(Op=pylops.MatrixMult(np.diag([1., .01])), b=np.array([3., -2.])), L1(sigma=1e-4)
x = GeneralizedProximalGradient([f], [g], np.zeros(2), tau=.5, niter=45, acceleration="fista")
u = v = z = np.zeros(2)
t = 1.
for _ in range(45):
    z = z + g.prox(2 * v - z - .5 * f.grad(u), .5) - v
    t, s = (1 + np.sqrt(1 + 4 * t * t)) / 2, t
    u, v = z, z + (s - 1) / t * (z - u)
assert np.allclose(x, u, rtol=1e-8), (x, u)
""")

bug(id="n24_anderson_hist", property="C19", file="optimization/primal.py",
    edits=[("    # initialize model\n    y = x0 - tau * proxf.grad(x0)\n", "    # more residuals than unknowns are linearly dependent\n    nhistory = min(nhistory, x0.size + 1)\n\n    # initialize model\n    y = x0 - tau * proxf.grad(x0)\n")],
    needs="a history longer than the vector",
    breaks="the oldest entries of the history are discarded",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import AndersonProximalGradient
from pyproximal.proximal import L2, L1
f, g = L2(Op=pylops.MatrixMult(np.diag([1., .3])), b=np.array([3., -2.])), L1(sigma=.1)
run = lambda h, n: AndersonProximalGradient(f, g, np.array([1., 2.]), tau=.5, niter=n, nhistory=h, epsr=1e-1)
assert np.array_equal(run(6, 4), run(9, 4))
assert not np.allclose(run(3, 4), run(6, 4), rtol=1e-8, atol=0), (run(3, 4), run(6, 4))
""")

bug(id="n26_ladmm_ratio", property="C21", file="optimization/primal.py",
    edits=[("        x = proxf.prox(x - mu / tau * A.rmatvec(Ax - z + u), mu)\n", "        x = proxf.prox(x - min(mu / tau, 1.0) * A.rmatvec(Ax - z + u), mu)\n")],
    needs="an operator with a norm below one and accordingly a ratio of steps above one",
    breaks="the step along the coupling term is cut",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primal import LinearizedADMM
from pyproximal.proximal import L2, L1
f, g = L2(b=np.array([3., -2.])), L1(sigma=.1)
A = pylops.MatrixMult(.5 * np.eye(2))
x, z = LinearizedADMM(f, g, A, np.array([1., 2.]), tau=.5, mu=1., niter=1, z0=np.zeros(2))
x0 = np.array([1., 2.])
assert np.allclose(x, f.prox(x0 - 2. * .25 * x0, 1.)), x
""")

bug(id="n27_ppxa_weight", property="C22", file="optimization/primal.py",
    edits=[("        p = ncp.stack([proxfs[i].prox(y[i], tau / w[i]) for i in range(m)])", "        p = ncp.stack([proxfs[i].prox(y[i], tau / max(w[i], 1e-2)) for i in range(m)])")],
    needs="a weight below one hundredth",
    breaks="the terms with small weight are under-represented in the objective",
    demo="""
import numpy as np
from pyproximal.optimization.primal import PPXA
from pyproximal.proximal import L2
x = PPXA([L2(b=np.array([3.])), L2(b=np.array([-1.]))], np.zeros(1), tau=1e-2, weights=[.998, .002], niter=20000, tol=0)
assert np.allclose(x, 1., atol=1e-3), x
""")

bug(id="n31_sigma_hundred", property="C14", file="proximal/L1.py",
    edits=[("        return sigma(count)", "        return sigma(min(count, 100))")],
    needs="a schedule that still changes after a hundred calls",
    breaks="the schedule is frozen",
    demo="""
import numpy as np
from pyproximal.proximal import L1
f = L1(sigma=lambda k: float(k))
for k in range(1, 121):
    y = f.prox(np.array([1000.]), 1.)
    assert y[0] == 1000. - k, (k, y)
""")

bug(id="n37_apd_alpha_floor", property="C23", file="optimization/primaldual.py",
    edits=[("            tau /= 1 - alpha\n            mu *= 1 - alpha\n            alpha *= eta\n", "            tau /= 1 - alpha\n            mu *= 1 - alpha\n            alpha = max(alpha * eta, 0.01)\n")],
    needs="an adaptive run with many step changes",
    breaks="the adaptivity does not vanish, so the steps do not settle",
    demo="""
import numpy as np, pylops
from pyproximal.optimization.primaldual import AdaptivePrimalDual
from pyproximal.proximal import L2, L1
x, (t, m, a) = AdaptivePrimalDual(L2(b=np.array([3., -2.])), L1(sigma=.1), pylops.Identity(2), np.zeros(2), tau=1e-4, mu=1e2, alpha=.02, eta=.5, niter=40)
assert len(a) > 3 and a.min() < .01, a
""")

bug(id="n42_bregman_alpha", property="C27", file="optimization/bregman.py",
    edits=[("        q = q - (1.0 / alpha) * proxf.grad(x)", "        q = q - min(1.0 / alpha, 1e2) * proxf.grad(x)")],
    needs="a weight of the regulariser below one hundredth",
    breaks="the subgradient update is damped",
    demo="""
import numpy as np
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.primal import ProximalPoint, HQS, ADMM
from pyproximal.proximal import L2, L1
al = 1e-3
f, g = L2(b=np.array([3., -2.])), L1(sigma=200.)
x = Bregman(f, g, np.zeros(2), ADMM, alpha=al, niterouter=3, tolx=0, tolf=0, tau=1., niter=400)
u, q = np.zeros(2), np.zeros(2)
for _ in range(3):
    v = np.array([3., -2.]) + al * q
    u = np.sign(v) * np.maximum(np.abs(v) - al * 200., 0)
    q = q - (u - np.array([3., -2.])) / al
assert np.allclose(x, u, atol=1e-6), (x, u)
""")

bug(id="n55_count_cap", property="C14", file="proximal/RelaxedMS.py",
    edits=[("        kappa = _current_sigma(self.kappa, self.count)\n\n        x = np.where(", "        kappa = _current_sigma(self.kappa, self.count % 64)\n\n        x = np.where(")],
    needs="a kappa schedule and more than 63 calls",
    breaks="the schedule starts again",
    demo="""
import numpy as np
from pyproximal.proximal import RelaxedMumfordShah
f = RelaxedMumfordShah(sigma=1., kappa=lambda k: float(k))
for k in range(1, 71):
    y = f.prox(np.array([13.5]), 1.)   # shrunk when 13.5^2 <= 3 k
    assert (y[0] == 4.5) == (13.5 ** 2 <= 3 * k), (k, y)
""")
