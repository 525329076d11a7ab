BUGS = []


def bug(**k):
    BUGS.append(k)


P = "optimization/primal.py"
PD = "optimization/primaldual.py"

bug(id="t01_backtrack_slack", property="C20", file=P,
    edits=[("        if proxf(z) <= ft:\n", "        if proxf(z) <= ft + 1e-4 * abs(ft):\n")],
    needs="automatic step on a problem whose optimal value is not zero, so that a relative slack is comparable with the decrease",
    breaks="steps which do not satisfy the sufficient decrease condition are accepted",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import _backtracking
# f = 1/2||Ax-b||^2 with a large optimal value
A = np.diag([3., 1.]); b = np.array([0., 0., 1e3])
Op = pylops.MatrixMult(np.vstack([A, np.zeros((1, 2))]))
f, g = L2(Op, b), L1(sigma=1e-6)
x = np.array([1., 1.])
z, tau = _backtracking(x, 1., f, g, 1., beta=.5, niterback=50)
q = f(x) + f.grad(x) @ (z - x) + np.sum((z - x)**2) / (2 * tau)
assert f(z) <= q + 1e-9 * f(x), (f(z), q, tau)
""")

bug(id="t03_pg_epsg_bt", property="C20", file=P,
    edits=[("        z = proxg.prox(x - tau * proxf.grad(x), epsg * tau)\n",
            "        z = proxg.prox(x - tau * proxf.grad(x), epsg * tau if iiterback == 0 else tau)\n")],
    needs="backtracking that shrinks the step with epsg different from one",
    breaks="after the first shrinking of the step the weight epsg of the second function is lost",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import ProximalGradient
b = np.array([3., -2., .5])
r = ProximalGradient(L2(b=b, sigma=5.), L1(), np.zeros(3), tau=None, epsg=2., niter=200)
z = np.sign(b) * np.maximum(np.abs(b) - 2. / 5, 0)
assert np.allclose(r, z, atol=1e-6), (r, z)
""")

bug(id="t04_pg_tol_sum", property="C24", file=P,
    edits=[("""    # initialize model
    t = 1.0
    x = x0.copy()
    y = x.copy()
    pfg = np.inf
    tolbreak = False
""", """    # initialize model
    t = 1.0
    x = x0.copy()
    y = x.copy()
    pfg = proxf(x) if tol is not None else np.inf
    tolbreak = False
""")],
    needs="tol, and a first iterate whose objective nearly equals the value of f at the initial guess",
    breaks="the first stopping test compares with f(x0) instead of being inconclusive, so the solver may stop after one iteration",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import ProximalGradient
# start at which one step keeps the objective: symmetric point of the parabola (tau = 2)
b = np.zeros(2)
cb = []
x0 = np.array([1., -1.])
ProximalGradient(L2(b=b), L1(sigma=1e-6), x0, tau=1.999, niter=20, tol=1e-2, callback=lambda x: cb.append(x.copy()))
assert len(cb) > 1, len(cb)
""")

bug(id="t05_anderson_hist", property="C19", file=P,
    edits=[("        if iiter >= nhistory - 1:\n            R.pop(-1)\n            G.pop(-1)\n",
            "        if iiter >= nhistory - 1:\n            R.pop(-1 if nhistory != 2 else 1)\n            G.pop(-1)\n")],
    needs="nhistory equal to two and at least two iterations",
    breaks="the residual history keeps a stale residual that does not match the stored points",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import AndersonProximalGradient
rng = np.random.RandomState(0)
A = rng.normal(0, 1, (8, 4)); b = rng.normal(0, 1, 8)
tau = .9 / np.linalg.norm(A, 2)**2
soft = lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0)
x = np.zeros(4)
for _ in range(100000):
    x = soft(x - tau * A.T @ (A @ x - b), .1 * tau)
r = AndersonProximalGradient(L2(pylops.MatrixMult(A), b), L1(sigma=.1), np.zeros(4), tau=tau, niter=80, nhistory=2)
assert np.allclose(r, x, atol=1e-6), (r, x)
""")

bug(id="t07_hqs_tau", property="C19", file=P,
    edits=[("""        else:
            x = proxf.prox(z, tau[iiter])
            z = proxg.prox(x, tau[iiter])

        # run callback
        if callback is not None:
            if callbackz:
                callback(x, z)
            else:
                callback(x)

        if show:
            if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                pf, pg = proxf(x), proxg(x)
                msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e" % (
                    iiter + 1,
                    np.real(to_numpy(x[0])),
                    pf,
                    pg,
                    pf + pg,
                )
                print(msg)
    if show:
        print("\\nTotal time (s) = %.2f" % (time.time() - tstart))
        print("---------------------------------------------------------\\n")
    return x, z


def ADMM(""", """        else:
            x = proxf.prox(z, tau[iiter])
            z = proxg.prox(x, tau[-1])

        # run callback
        if callback is not None:
            if callbackz:
                callback(x, z)
            else:
                callback(x)

        if show:
            if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                pf, pg = proxf(x), proxg(x)
                msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e" % (
                    iiter + 1,
                    np.real(to_numpy(x[0])),
                    pf,
                    pg,
                    pf + pg,
                )
                print(msg)
    if show:
        print("\\nTotal time (s) = %.2f" % (time.time() - tstart))
        print("---------------------------------------------------------\\n")
    return x, z


def ADMM(""")],
    needs="gfirst=False and a vector of step lengths which are not all equal",
    breaks="the second proximal of HQS always uses the last step length",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import HQS
b = np.array([3., -2., .5]); taus = [2., .5, .1]
soft = lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0)
z = np.zeros(3)
for t in taus:
    x = (z + t * b) / (1 + t); z = soft(x, t)
r = HQS(L2(b=b), L1(), np.zeros(3), tau=np.array(taus), niter=3, gfirst=False)
assert np.allclose(r[0], x) and np.allclose(r[1], z)
""")

bug(id="t08_admm_z0", property="C21", file=P,
    edits=[("    # initialize variables\n    x, z = _x0z0_init(x0, z0, A, Opname=\"A\")\n    ncp = get_array_module(x)\n    u = ncp.zeros_like(z)\n",
            "    # initialize variables\n    x, z = _x0z0_init(x0, None if x0 is not None and not gfirst else z0, A, Opname=\"A\")\n    ncp = get_array_module(x)\n    u = ncp.zeros_like(z)\n")],
    needs="ADMML2 with an explicit z0 different from A x0 and gfirst=False",
    breaks="the given initial guess of the auxiliary variable is ignored",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L1
from pyproximal.optimization.primal import ADMML2
rng = np.random.RandomState(0)
A = rng.normal(0, 1, (5, 3)); b = rng.normal(0, 1, 5); D = rng.normal(0, 1, (4, 3))
z0 = np.array([5., -3., 2., 1.]); tau = .7
r = ADMML2(L1(), pylops.MatrixMult(A), b, pylops.MatrixMult(D), np.zeros(3), tau, niter=1, z0=z0, iter_lim=200, atol=1e-14, btol=1e-14)
x = np.linalg.solve(A.T @ A + D.T @ D / tau, A.T @ b + D.T @ z0 / tau)
assert np.allclose(r[0], x, atol=1e-6), (r[0], x)
""")

bug(id="t09_ladmm_order", property="C21", file=P,
    edits=[("        x = proxf.prox(x - mu / tau * A.rmatvec(Ax - z + u), mu)\n",
            "        x = proxf.prox(x - mu * A.rmatvec(Ax - z + u) / max(tau, mu), mu)\n")],
    needs="mu larger than tau (an operator with a norm below one)",
    breaks="the gradient step of linearized ADMM has the wrong length",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L1, L2
from pyproximal.optimization.primal import LinearizedADMM
A = np.array([[.3, .1], [0., .2], [.1, .1]]); tau, mu = .5, 2.
b = np.array([1., -2.]); soft = lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0)
x = np.array([1., 2.]); z = A @ x; u = 0 * z
for _ in range(4):
    x = x - mu / tau * A.T @ (A @ x - z + u); x = (x + mu * b) / (1 + mu)
    z = soft(A @ x + u, tau * .2); u = u + A @ x - z
r = LinearizedADMM(L2(b=b), L1(sigma=.2), pylops.MatrixMult(A), np.array([1., 2.]), tau, mu, niter=4)
assert np.allclose(r[0], x), (r[0], x)
""")

bug(id="t11_drs_eta", property="C22", file=P,
    edits=[("            y = y + eta * (proxg.prox(2 * x - y, tau) - x)\n", "            y = (1 - eta) * y + eta * (y + proxg.prox(2 * x - y, tau) - x) if eta <= 1 else y + proxg.prox(2 * x - y, tau) - x\n")],
    needs="gfirst=False and over-relaxation (eta larger than one)",
    breaks="over-relaxation is ignored when f is evaluated first",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primal import DouglasRachfordSplitting
b = np.array([3., -2., .5]); tau, eta = .7, 1.6
soft = lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0)
y = np.ones(3)
for _ in range(4):
    x = (y + tau * b) / (1 + tau); y = y + eta * (soft(2 * x - y, tau) - x)
r = DouglasRachfordSplitting(L2(b=b), L1(), np.ones(3), tau, eta=eta, niter=4, gfirst=False)
assert np.allclose(r[0], x) and np.allclose(r[1], y)
""")

bug(id="t14_pd_mu", property="C23", file=PD,
    edits=[("""            xhat = x + theta * (x - xold)
            y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
""", """            xhat = x + theta * (x - xold)
            y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[0])
""")],
    needs="gfirst=False, a vector of dual steps, and a function whose conjugate prox depends on the step",
    breaks="the proximal of the conjugate uses the first dual step in all iterations",
    demo="""
import numpy as np, pylops
from pyproximal.proximal import L2, L1
from pyproximal.optimization.primaldual import PrimalDual
A = np.array([[1., .5], [0., 1.]]); b = np.array([1., -2.]); c = np.array([2., 1.])
taus, mus = np.array([.2, .3, .1]), np.array([.5, .2, .9])
x = np.zeros(2); y = np.zeros(2)
for t, m in zip(taus, mus):
    xo = x; x = x - t * A.T @ y; x = (x + t * b) / (1 + t)
    v = y + m * A @ (2 * x - xo); y = v - m * (v / m + c / m) / (1 + 1 / m)
r, ry = PrimalDual(L2(b=b), L2(b=c), pylops.MatrixMult(A), np.zeros(2), taus, mus, niter=3, gfirst=False, returny=True)
assert np.allclose(r, x) and np.allclose(ry, y), (ry, y)
""")

bug(id="t16_bregman_copy", property="C27", file="optimization/bregman.py",
    edits=[("            proxf_q = deepcopy(proxf) - alpha * q.copy()\n", "            proxf_q = deepcopy(proxf) - q.copy()\n")],
    needs="alpha different from one and at least two outer iterations",
    breaks="the linear term of the Bregman distance is not scaled by alpha",
    demo="""
import numpy as np
from pyproximal.proximal import L2, L1
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.primal import ADMM
b = np.array([3., -2., .5]); al = 3.
soft = lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0)
p = np.zeros(3)
for _ in range(3):
    x = soft(b + p, al * .5)      # min 1/2|x-b|^2 - p^T x + al g
    p = p - (x - b)
r = Bregman(L2(b=b), L1(sigma=.5), np.zeros(3), ADMM, alpha=al, niterouter=3, tau=1., niter=500)
assert np.allclose(r, x, atol=1e-6), (r, x)
""")

bug(id="t17_palm_lip", property="C25", file="optimization/palm.py",
    edits=[("""    x, y = x0.copy(), y0.copy()
    xold, yold = x0.copy(), y0.copy()
""", """    x, y = x0.copy(), y0.copy()
    xold = yold = y0.copy() if x0.size == y0.size else x0.copy()
    xold, yold = (x0.copy(), yold) if x0.size != y0.size else (xold, yold)
    yold = y0.copy()
""")],
    needs="iPALM with factors of equal size and different initial guesses",
    breaks="the inertial term of the first iteration uses the wrong previous iterate",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.optimization.palm import iPALM
rng = np.random.RandomState(0)
n = m = 4; k = 2
X, Y, d = rng.normal(0, 1, (n, k)), rng.normal(0, 1, (k, m)), rng.normal(0, 1, n * m)
H = LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
x, y = iPALM(H, None, None, X.ravel(), Y.ravel(), a=(.5, .5), niter=1)
D = d.reshape(n, m)
xr = X - (X @ Y - D) @ Y.T / np.linalg.norm(Y @ Y.T)
assert np.allclose(x, xr.ravel()), (x, xr.ravel())
""")

bug(id="t18_palm_bt", property="C25", file="optimization/palm.py",
    edits=[("""    while iiterback < niterback:
        z[ix] = x[ix] - tau * grad
        if proxf is not None:
            z[ix] = proxf.prox(z[ix], tau)
""", """    tau0 = tau
    while iiterback < niterback:
        z[ix] = x[ix] - tau * grad
        if proxf is not None:
            z[ix] = proxf.prox(z[ix], tau0)
""")],
    needs="PALM with automatic steps, a proximal operator, and a step that is shrunk",
    breaks="the proximal step keeps the initial step length while the gradient step shrinks",
    demo="""
import numpy as np
from pyproximal.proximal import L1
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.optimization.palm import _backtracking
rng = np.random.RandomState(0)
X, Y, d = rng.normal(0, 3, (4, 2)), rng.normal(0, 3, (2, 5)), rng.normal(0, 1, 20)
H = LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
x, tau = _backtracking([X.ravel(), Y.ravel()], 1., H, L1(sigma=.2), 0, beta=.5, niterback=60)
v = X.ravel() - tau * H.gradx(X.ravel())
assert tau < 1 and np.allclose(x, np.sign(v) * np.maximum(np.abs(v) - .2 * tau, 0)), tau
""")

bug(id="t19_lowrank_restore", property="C26", file="utils/bilinear.py",
    edits=[("        # restore original self.x\n        self.updatex(xold)\n", "        # restore original self.x\n        if x.size == xold.size:\n            self.updatex(np.where(np.isfinite(res).all(), xold.ravel(), xold.ravel()) if np.isrealobj(xold) else x)\n")],
    needs="complex factors: the operator is evaluated at another point before its gradient is asked for",
    breaks="evaluating the operator with complex factors changes the stored factor",
    demo="""
import numpy as np
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
rng = np.random.RandomState(0)
c = lambda *s: rng.normal(0, 1, s) + 1j * rng.normal(0, 1, s)
X, Y, d = c(4, 2), c(2, 5), c(20)
H = LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
g = H.grady(Y.ravel())
H(c(8), Y.ravel())
assert np.allclose(H.grady(Y.ravel()), g)
""")

bug(id="t20_segment_alpha", property="C28", file="optimization/segmentation.py",
    edits=[("        z=g if z is None else g + z,\n", "        z=g if z is None else g + z * (1.0 if clsigmas is None else np.repeat(clsigmas, dimsprod)),\n")],
    needs="an additional vector z together with class standard deviations",
    breaks="the additional vector is scaled by the class deviations",
    demo="""
import numpy as np
from pyproximal.optimization.segmentation import Segment
rng = np.random.RandomState(0)
y = rng.normal(0, 1, (4, 5)); cl = np.array([-1., 1.]); s = np.array([.5, 2.])
z = rng.normal(0, 1, 40); sig = 1.3
x1, _ = Segment(y, cl, sig, .4, clsigmas=s, z=z, niter=20)
# the same data term with everything in z
g = (sig / 2 * (y.ravel()[None] - cl[:, None])**2 / s[:, None]).ravel()
x2, _ = Segment(np.zeros((4, 5)), np.zeros(2), sig, .4, z=g + z, niter=20)
assert np.allclose(x1, x2, atol=1e-8)
""")

bug(id="t22_pnp_tau", property="C27", file="optimization/pnp.py",
    edits=[("        xden = self.denoiser(x, tau)\n", "        xden = self.denoiser(x, min(tau, 1.0))\n")],
    needs="plug and play with a step length larger than one",
    breaks="the denoiser receives a clipped step length",
    demo="""
import numpy as np
from pyproximal.proximal import L2
from pyproximal.optimization.pnp import PlugAndPlay
seen = []
def den(x, t):
    seen.append(t); return x / (1 + t)
PlugAndPlay(L2(b=np.ones(4)), den, (2, 2), np.zeros(4), tau=3., niter=2)
assert set(seen) == {3.}, seen
""")

