"""Feasibility and first-order optimality of an AC OPF result, from the result tables alone."""
import math
import numpy as np
from vlib import ref, acopf
from vlib.core import expect
from vlib.util import close, voltages

INF = float('inf')
D2R = math.pi / 180


def is_load(r):
    return r[9] < 0 and r[8] == 0


def qlim(r):
    """Reactive limit that sets the power factor of a dispatchable load."""
    return r[3] if r[4] == 0 else r[4]


def has_cap(r):
    """(upper, lower): the sloped capability limits bind somewhere inside the box limits."""
    pc1, pc2, q1n, q1x, q2n, q2x = r[10:16]
    if pc1 == pc2:
        return False, False
    lo = q1n + (r[8] - pc1) * (q2n - q1n) / (pc2 - pc1)
    hi = q1x + (r[8] - pc1) * (q2x - q1x) / (pc2 - pc1)
    return hi < r[3], lo > r[4]


def cap_rows(r):
    """Half planes a.(p, q) <= b of a capability curve in MW/MVAr, unit normals."""
    pc1, pc2, q1n, q1x, q2n, q2x = r[10:16]
    up, dn = has_cap(r)
    out = []
    if up:
        a = np.array([q1x - q2x, pc2 - pc1])
        s = np.hypot(*a)
        out.append((a / s, (a[0] * pc1 + a[1] * q1x) / s, 'u'))
    if dn:
        a = np.array([q2n - q1n, pc1 - pc2])
        s = np.hypot(*a)
        out.append((a / s, (a[0] * pc1 + a[1] * q1n) / s, 'l'))
    return out


def feasible(ppc, res, tol, kind=0, ignore_ang=False, key='', ref_angle=True, skip_balance=()):
    """tol in per unit."""
    L = ref.Live(ppc)
    net = acopf.AcNet(L)
    bus, g, br = res['bus'], res['gen'], res['branch']
    base = L.base
    va, vm = bus[L.rows, 8] * D2R, bus[L.rows, 7]
    p, q = net.inj(va, vm)
    sg = np.zeros(L.n, complex)
    for k, b in zip(L.g, L.gb):
        sg[b] += complex(g[k, 1], g[k, 2]) / base
    need = p + 1j * q + L.Sd
    Pshunt = 0
    close(sg, need, tol, key + 'balance', 'generation vs injection at the buses (pu)')
    for i, k in enumerate(L.rows):
        r = L.bus[k]
        expect(r[12] - tol <= vm[i] <= r[11] + tol, key + 'vm', lambda: 'bus %d: voltage %.6g outside [%g, %g]' % (r[0], vm[i], r[12], r[11]))
        if ref_angle and int(r[1]) == 3:
            expect(abs(va[i] - r[8] * D2R) <= tol, key + 'ref', lambda: 'reference angle %.6g, given %.6g' % (va[i] / D2R, r[8]))
    for k in L.g:
        r = L.gen[k]
        for c, hi, lo, nm in ((1, 8, 9, 'P'), (2, 3, 4, 'Q')):
            expect(r[lo] - tol * base <= g[k, c] <= r[hi] + tol * base, key + 'limit' + nm,
                   lambda: 'unit %d: %s = %.6g outside [%g, %g]' % (k, nm, g[k, c], r[lo], r[hi]))
        if is_load(r) and (r[3] or r[4]):
            pf = math.hypot(r[9], qlim(r))
            v = (g[k, 1] * qlim(r) - g[k, 2] * r[9]) / pf / base
            expect(abs(v) <= tol, key + 'power-factor', lambda: 'dispatchable load %d: (%.6g, %.6g) off its power factor (%g, %g)' % (k, g[k, 1], g[k, 2], r[9], qlim(r)))
        for a, b, w in cap_rows(r):
            v = (a @ g[k, 1:3] - b) / base
            expect(v <= tol, key + 'capability', lambda: 'unit %d: (%.6g, %.6g) outside its capability curve (%s) by %.3g' % (k, g[k, 1], g[k, 2], w, v))
    pf, qf, pt, qt = net.flows(va, vm)
    f2, t2 = net.flow2(va, vm, kind)
    for i, k in enumerate(L.br):
        b = L.branch[k]
        if 0 < b[5] < 1e10:
            for nm, v in (('from', f2[i]), ('to', t2[i])):
                lim = b[5] / base
                expect(v - lim ** 2 <= tol + 1e-9 * lim ** 2, key + 'flow', lambda: 'branch %d: flow %.6g at the %s end, limit %g' % (k, math.sqrt(v) * base, nm, b[5]))
        if not ignore_ang:
            d = va[L.F[i]] - va[L.T[i]]
            if b[11] != 0 and b[11] > -360:
                expect(d >= b[11] * D2R - tol, key + 'angle', lambda: 'branch %d: angle difference %.6g below %g' % (k, d / D2R, b[11]))
            if b[12] != 0 and b[12] < 360:
                expect(d <= b[12] * D2R + tol, key + 'angle', lambda: 'branch %d: angle difference %.6g above %g' % (k, d / D2R, b[12]))
    s = base * (1 + np.abs(f2).max() ** .5 if len(L.br) else 1)
    if L.br:
        S = np.stack([pf, qf, pt, qt], 1) * base
        close(br[L.br, 13:17], S, 1e-7 * s, key + 'flows', 'reported branch flows')
    close(br[L.brout, 13:21], np.zeros((len(L.brout), 8)), 0, key + 'off-branch', 'results of out-of-service branches')
    close(g[L.gout][:, [1, 2, 21, 22]], np.zeros((len(L.gout), 4)), 0, key + 'off-gen', 'results of out-of-service units')
    return L, net, va, vm


def slack_size(ppc, res, L, kind=0):
    """Bound on the largest inequality slack (pu) at the solution."""
    z = [8.0]
    g = res['gen']
    for k in L.g:
        r = L.gen[k]
        for gc, c in ((ppc['gencost'][k], 1),) + (((ppc['gencost'][len(L.gen) + k], 2),) if len(ppc['gencost']) > len(L.gen) else ()):
            if gc[0] == 1:      # distances to the segments' lines
                m = int(gc[3])
                v = acopf.gencost_value(gc, g[k, c])
                for i in range(m - 1):
                    p0, c0, p1, c1 = gc[4 + 2 * i:8 + 2 * i]
                    z.append(abs(v - c0 - (c1 - c0) / (p1 - p0) * (g[k, c] - p0)))
        z += [abs(v) / L.base for v in (r[8] - g[k, 1], r[9] - g[k, 1], r[3] - g[k, 2], r[4] - g[k, 2])]
        for a, b, _ in cap_rows(r):
            z.append(abs(b - a @ g[k, 1:3]) / L.base)
    for k in L.br:
        b = L.branch[k]
        if 0 < b[5] < 1e10:
            z.append((b[5] / L.base) ** 2)
    return max(v for v in z if v < 1e9)


def cost(ppc, res, L):
    ng = len(L.gen)
    gc = ppc['gencost']
    f = sum(acopf.gencost_value(gc[k], res['gen'][k, 1]) for k in L.g)
    if len(gc) > ng:
        f += sum(acopf.gencost_value(gc[ng + k], res['gen'][k, 2]) for k in L.g)
    return f


def max_slope(ppc, res, L):
    ng = len(L.gen)
    gc = ppc['gencost']
    m = 1.0
    for k in L.g:
        m = max([m] + [abs(s) for s in acopf.gencost_slopes(gc[k], res['gen'][k, 1])])
        if len(gc) > ng:
            m = max([m] + [abs(s) for s in acopf.gencost_slopes(gc[ng + k], res['gen'][k, 2])])
    return m


LOST = 0.11  # $/pu: PIPS drops multipliers below 1e-5 of inactive constraints, with a cost scaled by 1e-4


def kkt(ppc, res, L, net, va, vm, gradtol, comp, kind=0, ignore_ang=False, key='', skip_gens=(), extra=0.0, extra_p=None, lost=0,
        extra_va=None, tol_va=0.0, extra_vm=None, tol_vm=0.0, extra_q=None):
    """gradtol: relative gradient tolerance of the solver; comp: largest multiplier*slack ($)."""
    base = L.base
    bus, g, br = res['bus'], res['gen'], res['branch']
    gc = ppc['gencost']
    ng = len(L.gen)
    lp, lq = bus[L.rows, 13], bus[L.rows, 14]
    vx, vn = bus[L.rows, 15], bus[L.rows, 16]
    scale = max(1.0, np.abs(lp).max(), np.abs(lq).max(), g[L.g, 21:25].max() if L.g else 0)
    il = [i for i, k in enumerate(L.br) if 0 < L.branch[k][5] < 1e10]
    lim = np.array([L.branch[L.br[i]][5] / base for i in il])
    muf, mut = np.array([[br[L.br[i], c] for i in il] for c in (17, 18)]) * base / (2 * lim)
    M = max([scale * base, vx.max(), vn.max(), extra, (br[L.br, 19:21] if L.br else np.zeros(1)).max() / D2R] + list(muf) + list(mut))
    t = 2 * gradtol * (1e4 + M)     # $/pu

    def nonneg(v, nm):
        expect(v >= -1e-9, key + 'mu-sign', lambda: '%s: multiplier %r' % (nm, v))

    def slack(mu, s, nm):
        """mu in $ per unit of s"""
        expect(mu * max(s, 0.0) <= comp, key + 'complementarity', lambda: '%s: multiplier %.6g with slack %.6g' % (nm, mu, s))

    for k, b in zip(L.g, L.gb):
        if k in skip_gens:
            continue
        r = L.gen[k]
        p, q = g[k, 1], g[k, 2]
        d = 1e-4 * base * (1 + abs(p) / base)
        cp = (acopf.gencost_slopes(gc[k], p - d)[0], acopf.gencost_slopes(gc[k], p + d)[1])
        cq = (acopf.gencost_slopes(gc[ng + k], q - d)[0], acopf.gencost_slopes(gc[ng + k], q + d)[1]) if len(gc) > ng else (0.0, 0.0)
        cp, cq = (min(cp), max(cp)), (min(cq), max(cq))     # (costs may be concave)
        mpx, mpn, mqx, mqn = g[k, 21:25]
        for v, nm in ((mpx, 'Pmax'), (mpn, 'Pmin'), (mqx, 'Qmax'), (mqn, 'Qmin')):
            nonneg(v, 'unit %d %s' % (k, nm))
        xp = extra_p.get(k, 0.0) if extra_p else 0.0     # further constraints on the output ($/MWh)
        rp = (cp[0] - lp[b] + mpx - mpn + xp, cp[1] - lp[b] + mpx - mpn + xp)
        xq = extra_q.get(k, 0.0) if extra_q else 0.0
        rq = (cq[0] - lq[b] + mqx - mqn + xq, cq[1] - lq[b] + mqx - mqn + xq)
        e = (t + LOST * (2 + lost + len(cap_rows(r)))) / base + 1e-9 * scale
        pw = [max(abs(v) for v in c) for c, q in ((cp, gc[k]), (cq, gc[ng + k] if len(gc) > ng else gc[k])) if q[0] == 1]
        e += t * max(pw, default=0.0)       # ($ per unit of a helper variable)
        if is_load(r) and (r[3] or r[4]):
            # movement along the power factor line only
            w = np.array([r[9], qlim(r)]) / math.hypot(r[9], qlim(r))
            s = [rp[i] * w[0] + rq[j] * w[1] for i in (0, 1) for j in (0, 1)]
            expect(min(s) <= e and max(s) >= -e, key + 'gen-kkt', lambda: 'dispatchable load %d: residuals %s' % (k, s))
        else:
            expect(rp[0] <= e and rp[1] >= -e, key + 'gen-kkt', lambda: 'unit %d: P residual %s (price %.6g, marginal cost %s, mu %.6g %.6g)' % (k, rp, lp[b], cp, mpx, mpn))
            expect(rq[0] <= e and rq[1] >= -e, key + 'gen-kkt', lambda: 'unit %d: Q residual %s (price %.6g, marginal cost %s, mu %.6g %.6g)' % (k, rq, lq[b], cq, mqx, mqn))
        caps = cap_rows(r)
        if not caps:
            for m, s, nm in ((mpx, r[8] - p, 'Pmax'), (mpn, p - r[9], 'Pmin'), (mqx, r[3] - q, 'Qmax'), (mqn, q - r[4], 'Qmin')):
                slack(m, s, 'unit %d %s' % (k, nm))
        else:
            # multipliers include those of the sloped limits: they lie in the cone of the active limits
            act = [np.array(a) for a, s in (((1., 0.), r[8] - p), ((-1., 0.), p - r[9]), ((0., 1.), r[3] - q), ((0., -1.), q - r[4])) if s < 1e-3 * base]
            act += [a for a, c, _ in caps if c - a @ g[k, 1:3] < 1e-3 * base]
            mu = np.array([mpx - mpn, mqx - mqn])
            from scipy.optimize import nnls
            rn = nnls(np.array(act).T, mu)[1] if act else np.linalg.norm(mu)
            expect(rn * base * 1e-3 <= comp or rn <= 2e-3 * scale, key + 'complementarity', lambda: 'unit %d: multipliers %s are not those of active limits' % (k, mu))
    n = L.n
    x = np.concatenate([va, vm])

    def fl2(z):
        f2, t2 = net.flow2(z[:n], z[n:], kind)
        return np.concatenate([f2[il], t2[il]])

    def lag(z):
        p, q = net.inj(z[:n], z[n:])
        return ((lp * base) @ p + (lq * base) @ q)[None, :]
    grad = acopf.cstep(lag, x)[0]
    tolr = np.full(2 * n, t + 1e-9 * np.abs(grad).max())
    tolr[n:] += 2 * LOST
    if il:
        J = acopf.cstep(fl2, x)
        m = np.concatenate([muf, mut])
        grad = grad + m @ J
        tolr += LOST * (m == 0) @ np.abs(J) + 1e-9 * np.abs(m) @ np.abs(J)
    f2, t2 = net.flow2(va, vm, kind)
    for i, k in enumerate(L.br):
        b = L.branch[k]
        sf, st, am, ax = br[k, 17:21]
        for v, nm in ((sf, 'Sf'), (st, 'St'), (am, 'angmin'), (ax, 'angmax')):
            nonneg(v, 'branch %d %s' % (k, nm))
        if 0 < b[5] < 1e10:
            lim = b[5] / base
            slack(sf * base / (2 * lim), lim ** 2 - f2[i], 'branch %d from' % k)
            slack(st * base / (2 * lim), lim ** 2 - t2[i], 'branch %d to' % k)
        else:
            expect(sf == 0 and st == 0, key + 'flow-mu', lambda: 'unlimited branch %d has multipliers %g, %g' % (k, sf, st))
        d = (va[L.F[i]] - va[L.T[i]]) / D2R
        hl, hx = b[11] != 0 and not ignore_ang, b[12] != 0 and not ignore_ang
        slack(am, d - b[11] if hl else INF if am else 0, 'branch %d angmin' % k)
        slack(ax, b[12] - d if hx else INF if ax else 0, 'branch %d angmax' % k)
        grad[L.F[i]] += (ax - am) / D2R
        grad[L.T[i]] -= (ax - am) / D2R
        tolr[[L.F[i], L.T[i]]] += LOST * (hl + hx)
    for i in range(n):
        for v in (vx[i], vn[i]):
            nonneg(v, 'bus %d voltage' % L.bus[L.rows[i], 0])
        slack(vx[i], L.bus[L.rows[i], 11] - vm[i], 'bus %d Vmax' % L.bus[L.rows[i], 0])
        slack(vn[i], vm[i] - L.bus[L.rows[i], 12], 'bus %d Vmin' % L.bus[L.rows[i], 0])
    grad[n:] += vx - vn
    if extra_va is not None:    # further constraints on the angles ($/rad)
        grad[:n] += extra_va
        tolr[:n] += tol_va
    if extra_vm is not None:
        grad[n:] += extra_vm
        tolr[n:] += tol_vm
    refs = [i for i, k in enumerate(L.rows) if int(L.bus[k, 1]) == 3]
    for j in range(2 * n):
        if j in refs:
            continue
        expect(abs(grad[j]) <= tolr[j], key + 'price-kkt', lambda: 'stationarity residual %.6g at %s of bus %d (tolerance %.3g)' %
               (grad[j], 'angle' if j < n else 'magnitude', L.bus[L.rows[j % n], 0], tolr[j]))
