"""Independent dense primal-dual interior point method (the published MIPS algorithm, with step control)."""
import numpy as np

INF = float('inf')


def solve(fun, con, hess, x0, A, l, u, xmin, xmax, tol=1e-6, max_it=150, cm=1.0, sc=False, max_red=20, hist=None):
    """fun(x)->f,df; con(x)->h,g,dh,dg (dense, columns = constraints) or None; hess(x, lam, mu, cm)->Lxx.
    Returns (converged, iterations, x)."""
    n = len(x0)
    AA = np.vstack([np.eye(n), np.asarray(A, float).reshape(-1, n)])
    ll, uu = np.concatenate([xmin, l]), np.concatenate([xmax, u])
    eps = 2.2e-16
    with np.errstate(all='ignore'):
        eq = np.abs(uu - ll) <= eps
        gt = (uu >= 1e10) & (ll > -1e10)
        lt = (ll <= -1e10) & (uu < 1e10)
        bx = ~eq & (uu < 1e10) & (ll > -1e10)
    Ae, be = AA[eq], uu[eq]
    Ai = np.vstack([AA[lt], -AA[gt], AA[bx], -AA[bx]])
    bi = np.concatenate([uu[lt], -ll[gt], uu[bx], -ll[bx]])

    def ev(x):
        f, df = fun(x)
        h, g, dh, dg = con(x) if con else (np.zeros(0), np.zeros(0), np.zeros((n, 0)), np.zeros((n, 0)))
        return (f * cm, df * cm, np.concatenate([h, Ai @ x - bi]), np.concatenate([g, Ae @ x - be]),
                np.hstack([dh, Ai.T]), np.hstack([dg, Ae.T]), len(h), len(g))

    def nrm(v):
        return np.abs(v).max() if len(v) else 0.0

    def cond(x, h, g, z, lam, mu, Lx):
        return (max(nrm(g), h.max() if len(h) else 0.0) / (1 + max(nrm(x), nrm(z))), nrm(Lx) / (1 + max(nrm(lam), nrm(mu))))
    x = np.array(x0, float)
    f, df, h, g, dh, dg, nh, ng = ev(x)
    gamma = 1.0
    lam, z, mu = np.zeros(len(g)), np.ones(len(h)), np.ones(len(h))
    z[h < -1] = -h[h < -1]
    k = gamma / z > 1
    mu[k] = gamma / z[k]
    f0 = f
    Lx = df + dg @ lam + dh @ mu
    L = f + lam @ g + mu @ (h + z) - gamma * np.log(z).sum()
    fc, gc = cond(x, h, g, z, lam, mu, Lx)
    keep = hist is not None
    hist = hist if keep else []              # one record per iterate, as far as the outcome is not up to rounding

    def rec(step, ap, ad):
        hist.append({'feascond': fc, 'gradcond': gc, 'compcond': z @ mu / (1 + nrm(x)), 'gamma': gamma, 'stepsize': step,
                     'obj': f / cm, 'alphap': ap, 'alphad': ad, 'costcond': abs(f - f0) / (1 + abs(f0))})
    rec(0.0, 0.0, 0.0)
    if fc < tol and gc < tol and z @ mu / (1 + nrm(x)) < tol:
        return True, 0, x
    for it in range(1, max_it + 1):
        Lxx = hess(x, lam[:ng], mu[:nh], cm)
        D = dh / z
        M = Lxx + (D * mu) @ dh.T
        N = Lx + D @ (mu * h + gamma)
        if len(g) and (len(g) > n or np.linalg.svd(dg, compute_uv=False)[-1] < .1):
            return False, it, x       # (nearly) dependent equalities: the outcome is up to rounding
        K = np.block([[M, dg], [dg.T, np.zeros((len(g), len(g)))]])
        if keep and np.linalg.cond(K) > 1e8:
            return False, it, x
        try:
            d = np.linalg.solve(K, -np.concatenate([N, g]))
        except np.linalg.LinAlgError:
            return False, it, x
        if not np.all(np.isfinite(d)):
            return False, it, x
        dx, dlam = d[:n], d[n:]
        dz = -h - z - dh.T @ dx
        dmu = -mu + (gamma - mu * dz) / z
        if sc:
            f1, df1, h1, g1, dh1, dg1, _, _ = ev(x + dx)
            fc1, gc1 = cond(x + dx, h1, g1, z, lam, mu, df1 + dg1 @ lam + dh1 @ mu)
            if fc < 1e-12 and gc1 > gc and abs(Lx @ dx + .5 * dx @ Lxx @ dx) < 1e-8 * max(1, abs(L)):
                return False, it, x   # step control is triggered and judged by rounding errors
            if keep and (abs(fc1 - fc) < 1e-9 and gc1 > gc - 1e-9 or abs(gc1 - gc) < 1e-9 and fc1 > fc - 1e-9):
                return False, it, x
            if fc1 > fc and gc1 > gc:
                a = 1.0
                for j in range(max_red):
                    dx1 = a * dx
                    f1, _, h1, g1 = ev(x + dx1)[:4]
                    L1 = f1 + lam @ g1 + mu @ (h1 + z) - gamma * np.log(z).sum()
                    rho = (L1 - L) / (Lx @ dx1 + .5 * dx1 @ Lxx @ dx1)
                    if .95 < rho < 1.05:
                        break
                    a /= 2
                dx, dz, dlam, dmu = a * dx, a * dz, a * dlam, a * dmu
        ap = min([1.0] + [.99995 * z[i] / -dz[i] for i in range(len(z)) if dz[i] < 0])
        ad = min([1.0] + [.99995 * mu[i] / -dmu[i] for i in range(len(mu)) if dmu[i] < 0])
        x, z, lam, mu = x + ap * dx, z + ap * dz, lam + ad * dlam, mu + ad * dmu
        if len(z):
            gamma = .1 * (z @ mu) / len(z)
        f, df, h, g, dh, dg, _, _ = ev(x)
        Lx = df + dg @ lam + dh @ mu
        fc, gc = cond(x, h, g, z, lam, mu, Lx)
        if not np.all(np.isfinite(x)) or not np.isfinite(f):
            return False, it, x
        rec(np.linalg.norm(dx), ap, ad)
        if fc < tol and gc < tol and z @ mu / (1 + nrm(x)) < tol and abs(f - f0) / (1 + abs(f0)) < tol:
            return True, it, x
        if ap < .01 or ad < .01:
            return False, it, x       # stalls: the outcome is up to rounding
        if gamma < eps or gamma > 1 / eps:
            return False, it, x
        f0 = f
        L = f + lam @ g + mu @ (h + z) - gamma * np.log(z).sum()
    return False, max_it, x


def robust(run, x0, limit, tol):
    """run(x0, tol) -> (ok, it, x): converges with room to spare from x0 and from points next to it.
    Returns the largest number of iterations, or None."""
    best = 0
    for s, t in ((0.0, tol), (1e-7, tol), (-3e-6, tol), (0.0, tol / 10)):
        ok, it, x = run(x0 * (1 + s) + s, t)
        if not ok or it > limit:
            return None
        best = max(best, it)
    return best


def compare(run, x0, hist, rel=1e-4):
    """run(x0, hist) fills hist. Compares the records of an iteration with those of this method, as far as the latter
    do not depend on rounding. Returns (number of compared records, None or what differs)."""
    refs = []
    for s in (0.0, 1e-9, -3e-9):
        h = []
        run(x0 * (1 + s) + s, h)
        refs.append(h)
    n = 0
    for k, recs in enumerate(zip(*refs)):
        for key, v in recs[0].items():
            # once converged, what is left of the conditions is rounding
            if not np.isfinite(v) or max(abs(r[key] - v) for r in recs) > 1e-6 * (1 + abs(v)):
                return n, None
        if k >= len(hist):
            return n, 'ends after %d records' % len(hist)
        for key, v in recs[0].items():
            got = float(np.ravel(hist[k][key])[0])
            if not abs(got - v) <= rel * (1 + abs(v)):
                return n, '%s of iterate %d is %r, should be %r' % (key, k, got, v)
        n += 1
    return n, None


def interior(A, l, u, xmin, xmax, xs):
    """xs is strictly inside every inequality."""
    xs = np.array(xs)
    for v, lo, hi in list(zip(A @ xs if len(A) else [], l, u)) + list(zip(xs, xmin, xmax)):
        if hi - lo > 1e-9 and (v - lo < .01 or hi - v < .01):
            return False
    return True
