"""Independent model of the AC and DC optimal power flow (no code from /repo).

All network functions are written in real arithmetic so that they stay analytic
and derivatives can be taken exactly with a complex step.
"""
import math
import numpy as np
from vlib import ref

INF = float('inf')


def horner(c, x):
    r = 0.0 * x
    for a in c:
        r = r * x + a
    return r


def gencost_value(row, x):
    """Cost of one gencost row at output x (MW); complex-step safe."""
    n = int(row[3])
    if int(row[0]) == 2:
        return horner(row[4:4 + n], x)
    p, c = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
    xr = np.real(x)
    k = 0
    while k < n - 2 and xr >= p[k + 1]:
        k += 1
    return c[k] + (c[k + 1] - c[k]) / (p[k + 1] - p[k]) * (x - p[k])


def gencost_slopes(row, x):
    """(left, right) derivative of a cost row at x."""
    n = int(row[3])
    if int(row[0]) == 2:
        d = horner([a * (n - 1 - i) for i, a in enumerate(row[4:4 + n])][:-1], x) if n > 1 else 0.0
        return d, d
    p, c = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
    m = [(c[k + 1] - c[k]) / (p[k + 1] - p[k]) for k in range(n - 1)]
    lo, hi = m[0], m[0]
    lo = m[min([k for k in range(n - 1) if x <= p[k + 1]] or [n - 2])]
    hi = m[max([k for k in range(n - 1) if x >= p[k]] or [0])]
    return lo, hi


class AcNet(object):
    """Real-arithmetic network functions of an (internal or external) case."""
    def __init__(self, L):
        self.L, self.n = L, L.n
        Y = L.ybus()
        self.G, self.B = Y.real.copy(), Y.imag.copy()
        y = np.array([ref.branch_y(L.branch[k]) for k in L.br]).reshape(-1, 4)
        self.y = y
        self.F, self.T = np.array(L.F, int), np.array(L.T, int)

    def rect(self, va, vm):
        return vm * np.cos(va), vm * np.sin(va)

    def inj(self, va, vm):
        e, f = self.rect(va, vm)
        ir, ii = self.G @ e - self.B @ f, self.G @ f + self.B @ e
        return e * ir + f * ii, f * ir - e * ii

    def currents(self, va, vm):
        e, f = self.rect(va, vm)
        out = []
        for a, b in ((0, 1), (2, 3)):
            y1, y2 = self.y[:, a], self.y[:, b]
            if e.ndim == 2:
                y1, y2 = y1[:, None], y2[:, None]
            ef, ff, et, ft = e[self.F], f[self.F], e[self.T], f[self.T]
            out.append(y1.real * ef - y1.imag * ff + y2.real * et - y2.imag * ft)
            out.append(y1.real * ff + y1.imag * ef + y2.real * ft + y2.imag * et)
        return out                                    # Ifr, Ifi, Itr, Iti

    def flows(self, va, vm):
        e, f = self.rect(va, vm)
        a, b, c, d = self.currents(va, vm)
        ef, ff, et, ft = e[self.F], f[self.F], e[self.T], f[self.T]
        return ef * a + ff * b, ff * a - ef * b, et * c + ft * d, ft * c - et * d   # Pf Qf Pt Qt

    def flow2(self, va, vm, kind):
        """Squared constrained flow at both ends: kind 0 |S|, 1 P, 2 |I|."""
        if kind == 2:
            a, b, c, d = self.currents(va, vm)
            return a * a + b * b, c * c + d * d
        p, q, r, s = self.flows(va, vm)
        if kind == 1:
            return p * p, r * r
        return p * p + q * q, r * r + s * s


def cstep(fn, x, h=1e-30):
    """Jacobian (m, n) of an analytic fn, exact to rounding.

    fn maps a matrix of points (one per column) to a matrix of values (one column each).
    """
    return cstep_many(fn, np.asarray(x, float)[:, None], h)[0]


def cstep_many(fn, X, h=1e-30):
    """Jacobians at every column of X: array (K, m, n)."""
    n, K = X.shape
    Z = np.repeat(X, n, axis=1).astype(complex)            # column k*n + j: point k, perturbed in j
    Z[np.tile(np.arange(n), K), np.arange(n * K)] += 1j * h
    F = np.atleast_2d(fn(Z)).imag / h                      # (m, K*n)
    return F.reshape(F.shape[0], K, n).transpose(1, 0, 2)


def hessian(fn, x, h=2e-3):
    """Hessian of a scalar analytic function: Richardson-extrapolated central differences
    (error O(h^6)) of its complex-step gradient."""
    x = np.asarray(x, float)
    n = len(x)
    if n == 0:
        return np.zeros((0, 0))
    steps = [h, h / 2, h / 4]
    pts = []
    for s in steps:
        for k in range(n):
            for sg in (1, -1):
                p = x.copy()
                p[k] += sg * s
                pts.append(p)
    g = cstep_many(fn, np.array(pts).T)[:, 0, :]           # (6n, n)
    d = []
    for i, s in enumerate(steps):
        q = g[2 * n * i:2 * n * (i + 1)]
        d.append((q[0::2] - q[1::2]) / (2 * s))
    r1, r2 = (4 * d[1] - d[0]) / 3, (4 * d[2] - d[1]) / 3
    return (16 * r2 - r1) / 15


def user_cost(cp, x):
    """The documented generalised cost; complex-step safe away from dead-zone corners."""
    N, Cw = np.asarray(cp['N'], float), np.asarray(cp['Cw'], float)
    nw = len(Cw)
    H = np.asarray(cp['H'], float) if cp.get('H') is not None else np.zeros((nw, nw))
    w = []
    for i in range(nw):
        r = N[i] @ x - cp['rh'][i]
        k = cp['kk'][i]
        rr = np.real(r)
        z = np.where(rr < -k, r + k, np.where(rr > k, r - k, 0.0 * r))
        if cp['dd'][i] == 1:
            w.append(cp['mm'][i] * z)
        elif cp['dd'][i] == 2:
            w.append(cp['mm'][i] * z * z)
        else:
            w.append(0.0 * z)
    w = np.array(w)
    return 0.5 * (w * (H @ w)).sum(axis=0) + Cw @ w


def draw_gencost_row(c, width, plo, phi, convex=True, quad_only=False, allow_pwl=True, allow_const=True):
    """One cost row. plo..phi: range over which pwl breakpoints are spread."""
    kind = c.pick(['quad', 'quad', 'lin', 'pwl', 'pwl', 'pwl1', 'const' if allow_const else 'lin', 'cubic' if not quad_only else 'quad'])
    if not allow_pwl and kind.startswith('pwl'):
        kind = 'quad'
    su, sd = c.f(0, 100, 1), c.f(0, 50, 1)
    if kind == 'quad':
        co = [c.f(.001, .05), c.f(1, 60, 2), c.f(0, 200, 1)]
    elif kind == 'lin':
        co = [c.f(1, 60, 2), c.f(0, 200, 1)]
    elif kind == 'const':
        co = [c.f(0, 200, 1)]
    elif kind == 'cubic':
        co = [1e-5, c.f(.005, .05), c.f(1, 60, 2), c.f(0, 200, 1)]
    if kind.startswith('pwl'):
        n = 2 if kind == 'pwl1' else 2 + c.i_(1, 3)
        if 2 * n > width:
            n = width // 2
        span = max(phi - plo, 10.0)
        w = [c.f(.3, 1, 3) for _ in range(n - 1)]
        p = [round(plo - .0 * span, 4)]
        for x in w:
            p.append(round(p[-1] + span * x / sum(w), 4))
        m = c.f(1, 40, 2)
        y = [round(c.f(0, 200, 1), 3)]
        for k in range(n - 1):
            y.append(round(y[-1] + m * (p[k + 1] - p[k]), 6))
            m += c.f(1, 15, 2)
        co = [v for q in zip(p, y) for v in q]
        row = [1, su, sd, n] + co
    else:
        co = co[-width:]
        row = [2, su, sd, len(co)] + co
    return row + [0.0] * (4 + width - len(row))


def add_opf(d, net, tight=.5, qcost=.3, disp=.35, angle=.35, pqcap=.0, rates=.5, fixed=.08, dc=False, quad_only=False,
            allow_const=True, veq=.0):
    """Give a network (from draw_net) limits and costs for which its operating point is feasible."""
    ppc = net['ppc']
    base = ppc['baseMVA']
    L = ref.Live(ppc)
    vm = np.array(net['sol']['vm'])[L.rows]
    va = np.array(net['sol']['va'])[L.rows] * math.pi / 180
    feats = net['feats']
    # dispatchable loads: carve part of a new load out of an extra gen row
    if d.chance(disp):
        for _ in range(d.i(1, 2)):
            i = d.i(0, L.n - 1)
            row = ppc['bus'][L.rows[i]]
            p = round(d.f(.05, .4) * base, 3)
            k = d.pick([-1, 0, 1, 1])
            q = 0.0 if k == 0 else round(k * p * d.f(.1, .6, 2), 4)
            on = 1 if d.chance(.8) else 0
            frac = d.pick([1.0, .75, .5])
            if on:
                row[2] -= p * frac
                row[3] -= q * frac
            new = [row[0], -p * frac, -q * frac, max(-q, 0.0), min(-q, 0.0), vm[i], base, on, 0.0, -p] + [0.0] * 11
            pos = d.i(0, len(ppc['gen']))
            ppc['gen'].insert(pos, new)
        feats.append('dispatchable')
    L = ref.Live(ppc)
    for i, k in enumerate(L.rows):
        e = d.cells(6)
        r = ppc['bus'][k]
        up, dn = (e.f(.002, .03), e.f(.002, .03)) if e.chance(tight) else (e.f(.03, .1), e.f(.03, .1))
        if e.chance(veq):
            up = dn = 0.0
        r[11], r[12] = round(vm[i] + up, 5), round(vm[i] - dn, 5)
    for j, r in enumerate(ppc['gen']):
        e = d.cells(24)
        if r[8] == 0.0 and r[9] < 0:
            continue
        sz = base
        p, q = r[1], r[2]
        up, dn = (e.f(.02, .3), e.f(.02, .3)) if e.chance(tight) else (e.f(.3, 2), e.f(.3, 2))
        if dc:
            up, dn = up + .2, dn + .2
        r[8], r[9] = round(p + up * sz, 3), round(p - dn * sz, 3)
        if e.chance(.4) and p > 0 and r[9] < 0:
            r[9] = 0.0
        if e.chance(fixed):
            r[8] = r[9] = p
        if r[8] == 0.0:
            r[8] = 0.5
        up, dn = (e.f(.02, .3), e.f(.02, .3)) if e.chance(tight) else (e.f(.3, 2), e.f(.3, 2))
        r[3], r[4] = round(q + up * sz, 3), round(q - dn * sz, 3)
        if e.chance(fixed):
            r[3] = r[4] = q
        if pqcap and e.chance(pqcap) and r[8] > r[9]:
            # half planes through points above/below (p, q)
            pc1, pc2 = r[9], r[8]
            mid = (p - pc1) / (pc2 - pc1)
            s1, s2 = e.f(0, .8) * sz, e.f(0, .8) * sz
            t1, t2 = e.f(.02, .5) * sz, e.f(.02, .5) * sz
            # upper line passes t1 above q at p with slope -s1 ; lower t2 below with slope +s2
            qc1max, qc2max = q + t1 + s1 * mid, q + t1 - s1 * (1 - mid)
            qc1min, qc2min = q - t2 - s2 * mid, q - t2 + s2 * (1 - mid)
            r[10:16] = [pc1, pc2, qc1min, qc1max, qc2min, qc2max]
            if 'pqcap' not in feats:
                feats.append('pqcap')
    if not dc:
        net2 = AcNet(L)
        p, q, r, s = net2.flows(va, vm)
        a, b, c_, d_ = net2.currents(va, vm)
        mx = np.maximum(np.maximum(np.hypot(p, q), np.hypot(r, s)), np.maximum(np.hypot(a, b), np.hypot(c_, d_))) * base
    else:
        B, Bf, Pf, Pb = L.dc()
        mx = None
    for k, r in enumerate(ppc['branch']):
        e = d.cells(12)
        live = k in L.br
        if e.chance(rates):
            if not live:
                r[5] = e.f(1, 100, 1)
            elif dc:
                r[5] = None
            else:
                m = mx[L.br.index(k)]
                r[5] = round(m * (1 + (e.f(.005, .1) if e.chance(tight) else e.f(.1, 1))) + .05, 4)
        elif e.chance(.15):
            r[5] = 1e10
        r[6], r[7] = e.f(0, 50, 1), e.f(0, 50, 1)
    if d.chance(angle):
        used = False
        for k, r in enumerate(ppc['branch']):
            e = d.cells(8)
            if not e.chance(.5):
                continue
            dl = (va[L.F[L.br.index(k)]] - va[L.T[L.br.index(k)]]) * 180 / math.pi if k in L.br else 0.0
            lo, hi = round(dl - e.f(.05, 6, 3), 3), round(dl + e.f(.05, 6, 3), 3)
            m = e.pick(['both', 'lo', 'hi', 'both', 'lo0', 'hi0'])
            r[11] = lo if m in ('both', 'lo', 'lo0') and lo != 0 else -360.0
            r[12] = hi if m in ('both', 'hi', 'hi0') and hi != 0 else 360.0
            if m == 'lo0':
                r[12] = 0.0          # a zero limit means unconstrained
            if m == 'hi0':
                r[11] = 0.0
            used = True
        if used:
            feats.append('anglelim')
    width = d.pick([6, 8, 4])
    rows = []
    for r in ppc['gen']:
        e = d.cells(40)
        lo, hi = r[9], r[8]
        if r[9] < 0 and r[8] == 0:
            # demand: concave benefit, i.e. cost (of -P) convex; usually one block
            k = e.pick(['lin', 'pwl1', 'quad', 'pwl', 'cubic'])
            if k == 'cubic' and (width < 4 or quad_only):
                k = 'quad'
            mb = e.f(5, 90, 2)
            if k == 'lin' or (k == 'pwl' and width < 6):
                row = [2, 0, 0, 2, mb, 0.0]
            elif k == 'pwl1':
                row = [1, 0, 0, 2, lo, round(mb * lo, 6), 0.0, 0.0]
            elif k == 'pwl':
                m1 = round(lo * .4, 4)
                m2 = mb + 10
                row = [1, 0, 0, 3, lo, round(m1 * m2 + (lo - m1) * mb, 6), m1, round(m1 * m2, 6), 0.0, 0.0]
            else:
                row = [2, 0, 0, 3, .02, mb, 0.0] if k == 'quad' else [2, 0, 0, 4, 1e-5, .02, mb, 0.0]
            row = row + [0.0] * (4 + width - len(row))
        else:
            row = draw_gencost_row(e, width, lo, hi, quad_only=quad_only, allow_const=allow_const)
        rows.append(row)
    if d.chance(qcost):
        feats.append('qcost')
        for r in ppc['gen']:
            e = d.cells(40)
            k = e.pick(['zero', 'quad', 'pwl', 'lin', 'cubic'])
            if k == 'cubic' and (width < 4 or quad_only):
                k = 'quad'
            if k == 'zero':
                row = [2, 0, 0, 2, 0.0, 0.0]
            elif k == 'quad':
                row = [2, 0, 0, 3, e.f(.001, .05), e.c(-5, 5, 2), 0.0]
            elif k == 'cubic':
                row = [2, 0, 0, 4, 1e-5, e.f(.02, .05), e.c(-5, 5, 2), 0.0]
            elif k == 'lin':
                row = [2, 0, 0, 2, e.c(-5, 5, 2), 1.0]
            else:
                lo, hi = r[4], r[3]
                m1 = e.c(-8, 4, 2)
                mid = round((lo + hi) / 2, 4)
                if hi - lo < 1 or width < 6:
                    row = [2, 0, 0, 2, m1, 0.0]
                else:
                    m2 = m1 + e.f(.5, 6, 2)
                    row = [1, 0, 0, 3, lo, 0.0, mid, m1 * (mid - lo), hi, m1 * (mid - lo) + m2 * (hi - mid)]
            rows.append(row + [0.0] * (4 + width - len(row)))
    ppc['gencost'] = rows
    return net
