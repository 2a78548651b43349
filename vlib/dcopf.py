"""Independent model of the DC optimal power flow: LP/QP in (angles, outputs, extra variables).

The optimality oracle is the Frank-Wolfe gap: with the convex cost linearised at the
reported point (piecewise linear costs kept exactly, by their epigraph), an LP over the
feasible set bounds how far the reported cost is from the minimum.
"""
import math
import numpy as np
from scipy.optimize import linprog
from vlib import ref, acopf, mips
from vlib.core import expect
from vlib.util import close

INF = float('inf')


def point(L):
    """Angles (rad) of the DC power flow at the scheduled outputs, and the injections used."""
    base = L.base
    B, Bf, Pf, Pb = L.dc()
    refs = [i for i, r in enumerate(L.rows) if int(L.bus[r, 1]) == 3]
    p = -L.bus[L.rows, 2] / base - L.bus[L.rows, 4] / base
    for q, b in zip(L.g, L.gb):
        p[b] += L.gen[q, 1] / base
    va = L.bus[L.rows, 8] * math.pi / 180
    oth = [i for i in range(L.n) if i not in refs]
    if oth:
        va[oth] = np.linalg.solve(B[np.ix_(oth, oth)], (p - Pb)[oth] - B[np.ix_(oth, refs)] @ va[refs])
    return va, p


def add_dcopf(d, net, tight=.5, rates=.5, angle=.35, **k):
    """Costs and limits for which a known DC operating point is feasible (strictly, but for fixed units)."""
    acopf.add_opf(d, net, dc=True, angle=0.0, rates=rates, tight=tight, quad_only=True, **k)
    ppc = net['ppc']
    base = ppc['baseMVA']
    L = ref.Live(ppc)
    va, p = point(L)
    B, Bf, Pf, Pb = L.dc()
    refs = [i for i, r in enumerate(L.rows) if int(L.bus[r, 1]) == 3]
    need = B @ va + Pb - p
    for i in refs:                               # fixed load there closes the balance
        ppc['bus'][L.rows[i]][2] = round(ppc['bus'][L.rows[i]][2] - need[i] * base, 9)
    fl = (Bf @ va + Pf) * base
    for k_, r in enumerate(ppc['branch']):
        e = d.cells(6)
        if r[5] is None:
            m = abs(fl[L.br.index(k_)]) if k_ in L.br else 10.0
            r[5] = round(m * (1 + (e.f(.005, .1) if e.chance(tight) else e.f(.1, 1))) + .5, 3)
    if d.chance(angle):
        for k_, r in enumerate(ppc['branch']):
            e = d.cells(10)
            if not e.chance(.5):
                continue
            dl = (va[L.F[L.br.index(k_)]] - va[L.T[L.br.index(k_)]]) * 180 / math.pi if k_ in L.br else 0.0
            lo, hi = round(dl - e.f(.2, 6, 3), 3), round(dl + e.f(.2, 6, 3), 3)
            m = e.pick(['both', 'lo', 'hi', 'both', 'lo0', 'hi0'])
            r[11] = lo if m in ('both', 'lo', 'lo0') and lo != 0 else -360.0
            r[12] = hi if m in ('both', 'hi', 'hi0') and hi != 0 else 360.0
            if m == 'lo0':
                r[12] = 0.0
            if m == 'hi0':
                r[11] = 0.0
        if 'anglelim' not in net['feats']:
            net['feats'].append('anglelim')
    return net


class Problem(object):
    """min cost(x)  s.t.  l <= A x <= u, lo <= x <= hi, x = [va (rad), pg (pu), extra]."""
    def __init__(self, ppc, ignore_ang=False):
        L = self.L = ref.Live(ppc)
        self.base = L.base
        n, g = L.n, len(L.g)
        self.n, self.ng, self.nx = n, g, n + g
        self.B, self.Bf, self.Pf, self.Pb = L.dc()
        self.refs = [i for i, r in enumerate(L.rows) if int(L.bus[r, 1]) == 3]
        lo, hi = np.full(n, -INF), np.full(n, INF)
        for i in self.refs:
            lo[i] = hi[i] = L.bus[L.rows[i], 8] * math.pi / 180
        self.lo = np.concatenate([lo, L.gen[L.g, 9] / L.base])
        self.hi = np.concatenate([hi, L.gen[L.g, 8] / L.base])
        self.gen_cost = [np.asarray(ppc['gencost'][k], float) for k in L.g] if 'gencost' in ppc else [np.array([2., 0, 0, 1, 0])] * g
        self.A, self.l, self.u, self.tag = [], [], [], []
        self.lin, self.qd, self.const = np.zeros(self.nx), np.zeros((self.nx, self.nx)), 0.0
        for i in range(n):
            row = np.zeros(self.nx)
            row[:n] = self.B[i]
            for j, b in enumerate(L.gb):
                if b == i:
                    row[n + j] -= 1.0
            r = -(L.bus[L.rows[i], 2] + L.bus[L.rows[i], 4]) / L.base - self.Pb[i]
            self.row(row, r, r, ('bal', i))
        self.flowlim, self.anglim = [], []
        for i, k in enumerate(L.br):
            b = L.branch[k]
            if b[5] != 0 and b[5] < 1e10:
                row = np.zeros(self.nx)
                row[:n] = self.Bf[i]
                self.row(row, -b[5] / L.base - self.Pf[i], b[5] / L.base - self.Pf[i], ('flow', i))
                self.flowlim.append(i)
            amin, amax = b[11], b[12]
            if not ignore_ang:
                al = (amin != 0 and amin > -360) or (amax != 0 and amax < 360)
                if al:
                    row = np.zeros(self.nx)
                    row[L.F[i]] += 1
                    row[L.T[i]] -= 1
                    self.row(row, amin * math.pi / 180 if amin != 0 else -INF, amax * math.pi / 180 if amax != 0 else INF, ('ang', i))
                    self.anglim.append(i)

    def row(self, a, l, u, tag):
        self.A.append(np.asarray(a, float))
        self.l.append(l)
        self.u.append(u)
        self.tag.append(tag)

    def add_vars(self, lo, hi, lin=None):
        k = len(lo)
        self.lo, self.hi = np.concatenate([self.lo, lo]), np.concatenate([self.hi, hi])
        self.A = [np.concatenate([a, np.zeros(k)]) for a in self.A]
        self.lin = np.concatenate([self.lin, np.zeros(k) if lin is None else lin])
        q = np.zeros((self.nx + k, self.nx + k))
        q[:self.nx, :self.nx] = self.qd
        self.qd = q
        self.nx += k
        return np.arange(self.nx - k, self.nx)

    def pack(self, res, extra=()):
        """x from a results case (external tables)."""
        L = self.L
        return np.concatenate([res['bus'][L.rows, 8] * math.pi / 180, res['gen'][L.g, 1] / L.base, np.asarray(extra, float).reshape(-1)])

    def cost(self, x):
        return sum(acopf.gencost_value(c, p * self.base) for c, p in zip(self.gen_cost, x[self.n:self.n + self.ng])) + \
            self.lin @ x + .5 * x @ self.qd @ x + self.const

    def violation(self, x):
        """Largest violation (pu) and where."""
        w = (0.0, None)
        A = np.array(self.A)
        v = A @ x
        for a, l, u, t in zip(v, self.l, self.u, self.tag):
            m = max(l - a, a - u)
            if m > w[0]:
                w = (m, t)
        for j in range(self.nx):
            m = max(self.lo[j] - x[j], x[j] - self.hi[j])
            if m > w[0]:
                w = (m, ('var', j))
        return w

    def _lp(self, c, extra_rows=(), shrink=0.0, x0=None):
        """LP over [x, y]: y is the epigraph of the piecewise linear costs."""
        pw = [j for j, r in enumerate(self.gen_cost) if r[0] == 1]
        ny = len(pw)
        Ae, be, Au, bu = [], [], [], []
        for a, l, u in zip(self.A, self.l, self.u):
            a = np.concatenate([a, np.zeros(ny)])
            if u - l < 1e-12:
                Ae.append(a)
                be.append(u)
            else:
                if u < INF:
                    Au.append(a)
                    bu.append(u - shrink)
                if l > -INF:
                    Au.append(-a)
                    bu.append(-l - shrink)
        for k, j in enumerate(pw):
            r = self.gen_cost[j]
            m = int(r[3])
            p, q = r[4:4 + 2 * m:2] / self.base, r[5:5 + 2 * m:2]
            for i in range(m - 1):
                s = (q[i + 1] - q[i]) / (p[i + 1] - p[i])
                a = np.zeros(self.nx + ny)
                a[self.n + j], a[self.nx + k] = s, -1.0
                Au.append(a)
                bu.append(s * p[i] - q[i])
        cc = np.concatenate([c, np.ones(ny)])
        bd = []
        for lo, hi in zip(self.lo, self.hi):
            s = shrink if hi - lo > 1e-12 else 0.0
            bd.append((lo + s if lo > -INF else None, hi - s if hi < INF else None))
        bd += [(None, None)] * ny
        r = linprog(cc, np.array(Au) if Au else None, bu if Au else None, np.array(Ae) if Ae else None, be if Ae else None,
                    bounds=bd, method='highs')
        return r

    def feasible(self, shrink=0.0):
        """True / False / None by an LP with all inequalities tightened (or relaxed if negative)."""
        r = self._lp(np.zeros(self.nx), shrink=shrink)
        return True if r.status in (0, 3) else False if r.status == 2 else None

    def gap(self, x):
        """Upper bound on cost(x) - min cost (valid for feasible x), or None."""
        g = self.lin + self.qd @ x
        f0 = 0.0
        for j, r in enumerate(self.gen_cost):
            p = x[self.n + j] * self.base
            if r[0] == 2:
                g[self.n + j] += acopf.gencost_slopes(r, p)[0] * self.base
            else:
                f0 += acopf.gencost_value(r, p)
        r = self._lp(g)
        if r.status != 0:
            return None
        return f0 + g @ x - r.fun

    def minimum_lp(self):
        """Exact minimum when every cost is linear or piecewise linear."""
        g = self.lin.copy()
        k = self.const
        for j, r in enumerate(self.gen_cost):
            if r[0] == 2:
                n = int(r[3])
                co = np.concatenate([np.zeros(3), r[4:4 + n]])[-3:]
                if co[0] != 0:
                    return None
                g[self.n + j] += co[1] * self.base
                k += co[2]
        if np.any(self.qd):
            return None
        r = self._lp(g)
        return (r.fun + k, r.x[:self.nx]) if r.status == 0 else None

    # ------------------------------------------------------------ reference solver run
    def mips_args(self):
        """The same problem in the form PIPS is given it, with its documented starting point."""
        n, ng, nx = self.n, self.ng, self.nx
        gc = [r.copy() for r in self.gen_cost]
        pw = [j for j, r in enumerate(gc) if r[0] == 1 and int(r[3]) > 2]
        ny = len(pw)
        N = nx + ny
        A = [np.concatenate([a, np.zeros(ny)]) for a in self.A]
        l, u = list(self.l), list(self.u)
        Q = np.zeros((N, N))
        Q[:nx, :nx] = self.qd
        c = np.concatenate([self.lin, np.ones(ny)])
        last = []
        for j, r in enumerate(gc):
            m = int(r[3])
            if r[0] == 2:
                co = np.concatenate([np.zeros(3), r[4:4 + m]])[-3:]
                Q[n + j, n + j] += 2 * co[0] * self.base ** 2
                c[n + j] += co[1] * self.base
            else:
                p, q = r[4:4 + 2 * m:2] / self.base, r[5:5 + 2 * m:2]
                s = np.diff(q) / np.diff(p)
                if m == 2:
                    c[n + j] += s[0]
                else:
                    last.append(q[-1])
                    for i in range(m - 1):
                        a = np.zeros(N)
                        a[n + j], a[nx + pw.index(j)] = s[i], -1.0
                        A.append(a)
                        l.append(-INF)
                        u.append(s[i] * p[i] - q[i])
        lo = np.concatenate([self.lo, np.full(ny, -INF)])
        hi = np.concatenate([self.hi, np.full(ny, INF)])
        a_, b_ = np.where(lo == -INF, -1e10, lo), np.where(hi == INF, 1e10, hi)
        x0 = (a_ + b_) / 2
        x0 = np.where((lo == -INF) & (hi < INF), b_ - 1, np.where((lo > -INF) & (hi == INF), a_ + 1, x0))
        x0[:n] = self.lo[self.refs[0]]
        if ny:
            x0[nx:] = max(last) + .1 * abs(max(last))
        return Q, c, np.array(A), np.array(l), np.array(u), lo, hi, x0

    def converges(self, limit=60, tol=1e-6, sc=False, feastol=None):
        """The interior point iteration, done independently, converges comfortably."""
        Q, c, A, l, u, lo, hi, x0 = self.mips_args()

        def run(x, t):
            return mips.solve(lambda z: (.5 * z @ Q @ z + c @ z, Q @ z + c), None, lambda z, lam, mu, cm: Q * cm,
                              x, A, l, u, lo, hi, tol=t, sc=sc)
        return mips.robust(run, x0, limit, tol)


def check_solution(P, res, x, tol=5e-6, gap_tol=1e-4, f=None, key=''):
    """Feasibility, objective and optimality of a reported point. Returns the cost.

    tol: the solver's feasibility tolerance, relative to the largest solution entry (cost variables included)."""
    base = P.base
    v, where = P.violation(x)
    tol_p = 1.5 * tol * (1 + 2 * max(np.abs(res['x']).max(), np.abs(x).max())) + 1e-7
    expect(v <= tol_p, key + 'infeasible', lambda: 'constraint %s violated by %.3g pu' % (where, v))
    c = P.cost(x)
    if f is not None:
        sl = max([1.0] + [abs(s) for r, p in zip(P.gen_cost, x[P.n:P.n + P.ng]) for s in acopf.gencost_slopes(r, p * base)])
        close(f, c, 1e-5 * (1 + abs(c)) + (1e-5 + tol_p) * sl * base, key + 'cost', 'objective vs cost of the dispatch')
    g = P.gap(x)
    if g is not None:
        sl = max([1.0] + [abs(s) for r, p in zip(P.gen_cost, x[P.n:P.n + P.ng]) for s in acopf.gencost_slopes(r, p * base)])
        expect(g <= gap_tol * (1 + abs(c)) + (1e-4 + tol_p * P.n) * sl * base, key + 'suboptimal',
               lambda: 'cost %.8g can be lowered by up to %.6g' % (c, g))
    return c


def check_multipliers(P, res, tol=1e-4, extra_va=None, extra_pg=None, key=''):
    """Prices and limit multipliers satisfy the optimality conditions (all in $/MWh or $/degree).

    extra_va / extra_pg: gradient of additional Lagrangian terms w.r.t. angle (per rad, $ per pu*... ) and output ($/MWh)."""
    L = P.L
    bus, gen, br = res['bus'], res['gen'], res['branch']
    lam = bus[L.rows, 13]
    scale = max(1.0, np.abs(lam).max())
    t = tol * scale
    # active power of each unit
    for j, k in enumerate(L.g):
        p = gen[k, 1]
        d = 1e-4 * P.base * (1 + abs(p) / P.base)
        lo, _ = acopf.gencost_slopes(P.gen_cost[j], p - d)
        _, hi = acopf.gencost_slopes(P.gen_cost[j], p + d)
        c = P.gen_cost[j]
        if c[0] == 1 and 'x' in res:     # cost rows that are slack may keep a small multiplier
            C = 3e-6 * (1 + np.abs(res['x']).max())
            m, v = int(c[3]), acopf.gencost_value(c, p)
            lo0, hi0 = lo, hi
            for i in range(m - 1):
                q0, y0, q1, y1 = c[4 + 2 * i:8 + 2 * i]
                sl = (y1 - y0) / (q1 - q0)
                w = min(1.0, C / max(v - y0 - sl * (p - q0), 1e-12))
                lo, hi = lo + w * min(sl - lo0, 0), hi + w * max(sl - hi0, 0)
        mx, mn = gen[k, 21], gen[k, 22]
        e = extra_pg[j] if extra_pg is not None else 0.0
        r = lam[L.gb[j]] - mx + mn - e
        expect(lo - t - 1e-3 <= r <= hi + t + 1e-3, key + 'gen-kkt',
               lambda: 'unit %d: price %.6g - muPmax %.6g + muPmin %.6g - %.6g = %.6g, marginal cost [%.6g, %.6g]' %
               (k, lam[L.gb[j]], mx, mn, e, r, lo, hi))
        expect(mx >= -1e-9 and mn >= -1e-9, key + 'mu-sign', lambda: 'unit %d: multipliers %r, %r' % (k, mx, mn))
        for m, s in ((mx, L.gen[k, 8] - p), (mn, p - L.gen[k, 9])):
            expect(min(m / scale, s / P.base) < 2e-3, key + 'gen-slack', lambda: 'unit %d: multiplier %.6g with slack %.6g MW' % (k, m, s))
    # branches
    grad = P.B.T @ lam * P.base
    scb = 1.0
    for i, k in enumerate(L.br):
        sf, st = br[k, 17], br[k, 18]
        expect(sf >= -1e-9 and st >= -1e-9, key + 'mu-sign', lambda: 'branch %d: flow multipliers %r, %r' % (k, sf, st))
        if i not in P.flowlim:
            expect(sf == 0 and st == 0, key + 'flow-mu', lambda: 'unlimited branch %d has multipliers %g %g' % (k, sf, st))
        else:
            lim = L.branch[k, 5]
            for m, s in ((sf, lim - br[k, 13]), (st, lim - br[k, 15])):
                expect(min(m / scale, s / P.base) < 2e-3, key + 'flow-slack', lambda: 'branch %d: multiplier %.6g with slack %.6g MW' % (k, m, s))
        grad = grad + P.Bf[i] * (sf - st) * P.base
        am, ax = br[k, 19], br[k, 20]
        expect(am >= -1e-9 and ax >= -1e-9, key + 'mu-sign', lambda: 'branch %d: angle multipliers %r, %r' % (k, am, ax))
        if i not in P.anglim:
            expect(am == 0 and ax == 0, key + 'ang-mu', lambda: 'branch %d without angle limits has angle multipliers %g %g' % (k, am, ax))
        else:
            df = bus[L.rows[L.F[i]], 8] - bus[L.rows[L.T[i]], 8]
            b = L.branch[k]
            for m, s in ((ax, b[12] - df if b[12] != 0 else INF), (am, df - b[11] if b[11] != 0 else INF)):
                expect(min(m / scale / P.base, s) < 2e-3 * 60, key + 'ang-slack', lambda: 'branch %d: angle multiplier %.6g with slack %.6g deg' % (k, m, s))
        grad[L.F[i]] += (ax - am) * 180 / math.pi
        grad[L.T[i]] -= (ax - am) * 180 / math.pi
        scb = max(scb, np.abs(P.Bf[i]).max())
    if extra_va is not None:
        grad = grad + extra_va
    for i in range(P.n):
        if i in P.refs:
            continue
        expect(abs(grad[i]) <= tol * scale * scb * P.base, key + 'price-kkt',
               lambda: 'prices inconsistent at bus %d: residual %.6g (scale %.3g)' % (L.bus[L.rows[i], 0], grad[i], scale * scb * P.base))
