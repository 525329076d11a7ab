"""Reference recursions of the solvers, transcribed from the documentation; operators are only
used through prox / grad, linear operators through dense matrices.  Each returns the list of
iterates passed to the callback."""
import numpy as np


def omega(acc, k, st):
    if acc == "vandenberghe":
        return k / (k + 3)
    if acc == "fista":
        t = st["t"]
        st["t"] = (1 + np.sqrt(1 + 4 * t * t)) / 2
        return (t - 1) / st["t"]
    return 0.0


def proximal_point(prox, x0, tau, niter):
    its, x = [], x0
    for _ in range(niter):
        x = prox(x, tau)
        its.append(x)
    return its


def proximal_gradient(grad, prox, x0, eps, tau, niter, acc=None, eta=1.0):
    eps = np.broadcast_to(np.asarray(eps, dtype=float), (niter,))
    its, x, y, st = [], x0, x0, {"t": 1.0}
    for k in range(niter):
        xn = y + eta * (prox(y - tau * grad(y), eps[k] * tau) - y)
        y = xn + omega(acc, k, st) * (xn - x)
        x = xn
        its.append(x)
    return its


def anderson(grad, prox, x0, eps, tau, niter, nh, epsr, guard=False, fval=None):
    eps = np.broadcast_to(np.asarray(eps, dtype=float), (niter,))
    y = x0 - tau * grad(x0)
    x = prox(y, eps[0] * tau)
    G, R, its = [y], [y - x0], []
    for k in range(niter):
        g = x - tau * grad(x)
        G, R = ([g] + G)[:nh], ([g - y] + R)[:nh]
        M = np.array(R)
        W = M @ M.T
        W = W + epsr * np.sum(M ** 2) * np.eye(len(R))
        one = np.ones(len(R))
        if np.sum(M ** 2) > 0:
            a = np.linalg.solve(W / np.sum(M ** 2), one)
        else:
            a = one
        a = a / np.sum(a)
        yt = sum(ai * gi for ai, gi in zip(a, G))
        xt = prox(yt, eps[k] * tau)
        if not guard or fval(xt) <= fval(x) - tau / 2 * np.sum(grad(x) ** 2):
            y, x = yt, xt
        else:
            y, x = g, prox(g, eps[k] * tau)
        its.append(x)
    return its


def generalized(grads, proxs, x0, tau, eps, w, niter, acc=None, eta=1.0):
    m = len(proxs)
    eps = np.broadcast_to(np.asarray(eps, dtype=float), (m,))
    w = np.full(m, 1 / m) if w is None else np.asarray(w)
    x, y, zs, st, its = x0, x0, [x0] * m, {"t": 1.0}, []
    for k in range(niter):
        gr = sum(g(x) for g in grads)
        zs = [z + eta * (p(2 * y - z - tau * gr, tau * e / wi) - y) for z, p, e, wi in zip(zs, proxs, eps, w)]
        xn = sum(wi * z for wi, z in zip(w, zs))
        y = xn + omega(acc, k, st) * (xn - x)
        x = xn
        its.append(x)
    return its


def hqs(pf, pg, x0, z0, tau, niter, gfirst):
    tau = np.broadcast_to(np.asarray(tau, dtype=float), (niter,))
    x, z, its = x0, z0, []
    for k in range(niter):
        if gfirst:
            z = pg(x, tau[k])
            x = pf(z, tau[k])
        else:
            x = pf(z, tau[k])
            z = pg(x, tau[k])
        its.append((x, z))
    return its


def twist(pg, A, b, x0, alpha, beta, niter):
    def s(v):
        return pg(v + A.conj().T @ (b - A @ v), 1.0)
    xo, x, its = x0, s(x0), []
    for _ in range(niter):
        xo, x = x, (1 - alpha) * xo + (alpha - beta) * x + beta * s(x)
        its.append(x)
    return its


def admm(pf, pg, x0, z0, tau, niter, gfirst):
    x, z, u, its = x0, z0, 0 * x0, []
    for _ in range(niter):
        if gfirst:
            z = pg(x + u, tau)
            x = pf(z - u, tau)
        else:
            x = pf(z - u, tau)
            z = pg(x + u, tau)
        u = u + x - z
        its.append((x, z))
    return its


def admml2(pg, Op, b, A, x0, z0, tau, niter, gfirst):
    """stops before an inner system with a vanishing right-hand side (scipy's lsqr returns its starting guess then)"""
    x, z = x0, z0
    u = 0 * z0
    its = []

    def lsq(z, u):
        M = np.vstack([Op, A / np.sqrt(tau)])
        return np.linalg.lstsq(M, np.concatenate([b, (z - u) / np.sqrt(tau)]), rcond=None)[0]
    for _ in range(niter):
        if gfirst:
            z = pg(A @ x + u, tau)
        if np.linalg.norm(b) + np.linalg.norm(z - u) < 1e-9 * (1 + np.linalg.norm(x)):
            return its
        if gfirst:
            x = lsq(z, u)
        else:
            x = lsq(z, u)
            z = pg(A @ x + u, tau)
        u = u + A @ x - z
        its.append((x, z))
    return its


def ladmm(pf, pg, A, x0, z0, tau, mu, niter):
    x, z, u, its = x0, z0, 0 * z0, []
    for _ in range(niter):
        x = pf(x - mu / tau * (A.conj().T @ (A @ x - z + u)), mu)
        z = pg(A @ x + u, tau)
        u = u + A @ x - z
        its.append((x, z))
    return its


def drs(pf, pg, x0, tau, eta, niter, gfirst):
    y, its = x0, []
    a, b = (pg, pf) if gfirst else (pf, pg)
    for _ in range(niter):
        x = a(y, tau)
        y = y + eta * (b(2 * x - y, tau) - x)
        its.append((x, y))
    return its


def ppxa(proxs, y0, tau, eta, w, niter):
    y = [v for v in y0]
    x = sum(wi * v for wi, v in zip(w, y))
    its = []
    for _ in range(niter):
        p = [f(v, tau / wi) for f, v, wi in zip(proxs, y, w)]
        pn = sum(wi * v for wi, v in zip(w, p))
        y = [v + eta * (2 * pn - x - q) for v, q in zip(y, p)]
        x = x + eta * (pn - x)
        its.append(x)
    return its


def consensus(proxs, x0, tau, niter):
    m = len(proxs)
    xb, y, its = x0, [0 * x0] * m, []
    for _ in range(niter):
        x = [f(xb - v, tau) for f, v in zip(proxs, y)]
        xb = sum(x) / m
        y = [v + q - xb for v, q in zip(y, x)]
        its.append(xb)
    return its


class Tie(Exception):
    pass


def backtrack(x, tau, fval, grad, prox, beta, trials):
    """first accepted step of the sequence tau, beta tau, ...; Tie when rounding decides"""
    fx, g = fval(x), grad(x)
    for _ in range(trials):
        z = prox(x - tau * g, tau)
        d = z - x
        up = fx + np.real(np.vdot(g, d)) + np.sum(np.abs(d) ** 2) / (2 * tau)
        fz = fval(z)
        s = abs(fx) + abs(fz) + abs(up) + abs(np.real(np.vdot(g, d))) + 1e-300
        if not np.isfinite(s):
            raise Tie
        if abs(fz - up) <= 1e-10 * s and np.any(d != 0):
            raise Tie
        if fz <= up:
            return z, tau
        tau = tau * beta
    raise Tie


def pg_backtracking(fval, grad, prox, x0, eps, tau, beta, trials, niter, acc=None, eta=1.0):
    """(iterates, steps); stops early when rounding decides an acceptance"""
    eps = np.broadcast_to(np.asarray(eps, dtype=float), (niter,))
    its, taus, x, y, st = [], [], x0, x0, {"t": 1.0}
    for k in range(niter):
        try:
            z, tau = backtrack(y, tau, fval, grad, lambda v, t: prox(v, eps[k] * t), beta, trials)
        except Tie:
            return its, taus
        xn = y + eta * (z - y)
        y = xn + omega(acc, k, st) * (xn - x)
        x = xn
        its.append(x)
        taus.append(tau)
    return its, taus


class LowRank:
    """1/2 |Op(XY) - d|^2 with dense algebra"""

    def __init__(self, n, k, m, d, Op=None):
        self.n, self.k, self.m, self.d, self.Op = n, k, m, d, Op

    def res(self, x, y):
        v = (x.reshape(self.n, self.k) @ y.reshape(self.k, self.m)).ravel()
        return (v if self.Op is None else self.Op @ v) - self.d

    def val(self, x, y):
        return 0.5 * float(np.sum(np.abs(self.res(x, y)) ** 2))

    def back(self, x, y):
        r = self.res(x, y)
        return (r if self.Op is None else self.Op.conj().T @ r).reshape(self.n, self.m)

    def gx(self, x, y):
        return (self.back(x, y) @ y.reshape(self.k, self.m).conj().T).ravel()

    def gy(self, x, y):
        return (x.reshape(self.n, self.k).conj().T @ self.back(x, y)).ravel()

    def _like(self, dtype):
        from pyproximal.utils.bilinear import LowRankFactorizedMatrix
        return LowRankFactorizedMatrix(np.zeros((self.n, self.k), dtype), np.zeros((self.k, self.m), dtype), self.d)

    # the constants the operator itself reports (decided in C26)
    def lx(self, x):
        return self._like(x.dtype).lx(x)

    def ly(self, y):
        return self._like(y.dtype).ly(y)


def palm(H, pf, pg, x0, y0, gf, gg, beta, trials, niter, a=(0.0, 0.0)):
    """(iterates, steps); a: inertia; stops early when rounding decides an acceptance or a step is undefined"""
    x, y, xo, yo, tf, tg = x0, y0, x0, y0, 1.0, 1.0
    its, steps = [], []
    one = lambda v, t: v
    pf, pg = pf or one, pg or one
    for _ in range(niter):
        try:
            z = x + a[0] * (x - xo)
            xo = x
            if gf is not None:
                L = gf * H.ly(y)
                if not L > 1e-150 or not np.isfinite(L):
                    return its, steps
                x, sx = pf(z - H.gx(z, y) / L, 1 / L), 1 / L
            else:
                x, tf = backtrack(z, tf, lambda v: H.val(v, y), lambda v: H.gx(v, y), pf, beta, trials)
                sx = tf
            z = y + a[1] * (y - yo)
            yo = y
            if gg is not None:
                L = gg * H.lx(x)
                if not L > 1e-150 or not np.isfinite(L):
                    return its, steps
                y, sy = pg(z - H.gy(x, z) / L, 1 / L), 1 / L
            else:
                y, tg = backtrack(z, tg, lambda v: H.val(x, v), lambda v: H.gy(x, v), pg, beta, trials)
                sy = tg
        except Tie:
            return its, steps
        its.append((x, y))
        steps.append((sx, sy))
    return its, steps


def dual(prox):
    return lambda v, s: v - s * prox(v / s, 1 / s)


def primaldual(pf, pgd, A, x0, y0, tau, mu, theta, z, niter, gfirst):
    tau, mu = np.broadcast_to(np.asarray(tau, dtype=float), (niter,)), np.broadcast_to(np.asarray(mu, dtype=float), (niter,))
    x, y, xh, its = x0, y0, x0, []
    AH = A.conj().T
    for k in range(niter):
        xo = x
        if gfirst:
            y = pgd(y + mu[k] * (A @ xh), mu[k])
        x = pf(x - tau[k] * (AH @ y + z), tau[k])
        xh = x + theta * (x - xo)
        if not gfirst:
            y = pgd(y + mu[k] * (A @ xh), mu[k])
        its.append((x, y))
    return its


def adaptive(pf, pgd, A, x0, tau, mu, alpha, eta, s, delta, z, niter, tol):
    """(iterates, steps, residuals); Tie marks a decision that rounding takes"""
    x, y = x0, np.zeros(A.shape[0], dtype=np.result_type(x0, A))
    AH = A.conj().T
    its, steps, tie = [], [(tau, mu, alpha)], False
    for k in range(niter):
        xn = pf(x - tau * (AH @ y + z), tau)
        yn = pgd(y + mu * (A @ (2 * xn - x)), mu)
        p = float(np.linalg.norm((x - xn) / tau - AH @ (y - yn)))
        d = float(np.linalg.norm((y - yn) / mu - A @ (x - xn)))
        e = 1e-7 * (p + s * d) + 1e-13 * (1 + np.linalg.norm(x) / tau + np.linalg.norm(y) / mu + np.linalg.norm(AH @ y) + np.linalg.norm(A @ x))
        tie = tie or min(abs(p - s * d * delta), abs(p - s * d / delta)) <= e or min(abs(p - tol), abs(d - tol)) <= e
        x, y = xn, yn
        if tie:
            break
        if p > s * d * delta:
            tau, mu, alpha = tau / (1 - alpha), mu * (1 - alpha), alpha * eta
        elif p < s * d / delta:
            tau, mu, alpha = tau * (1 - alpha), mu / (1 - alpha), alpha * eta
        its.append((x, y))
        steps.append((tau, mu, alpha))
        if p <= tol and d <= tol:
            break
    return its, steps, tie
