"""Independent, element-by-element reference model (no code from /repo)."""
import math, cmath
import numpy as np


def branch_y(b):
    """Two-port admittances of one branch row (pi model, ideal transformer at the from end)."""
    z = complex(b[2], b[3])
    ys = 1.0 / z
    bc = 1j * b[4] / 2.0
    ratio = b[8] if b[8] != 0 else 1.0
    a = cmath.rect(ratio, math.pi / 180.0 * b[9])
    yff = (ys + bc) / (abs(a) ** 2)
    yft = -ys / a.conjugate()
    ytf = -ys / a
    ytt = ys + bc
    return yff, yft, ytf, ytt


class Live(object):
    """The energised part of a case given in external numbering."""
    def __init__(self, ppc):
        bus = np.asarray(ppc['bus'], float)
        gen = np.asarray(ppc['gen'], float)
        br = np.asarray(ppc['branch'], float)
        self.base = float(ppc['baseMVA'])
        self.bus, self.gen, self.branch = bus, gen, br
        self.rows = [k for k in range(len(bus)) if int(bus[k, 1]) != 4]       # bus rows in service
        self.idx = {int(bus[k, 0]): i for i, k in enumerate(self.rows)}       # ext number -> position
        self.n = len(self.rows)
        self.br = [k for k in range(len(br)) if br[k, 10] != 0 and int(br[k, 0]) in self.idx and int(br[k, 1]) in self.idx]
        self.brout = [k for k in range(len(br)) if k not in set(self.br)]
        self.g = [k for k in range(len(gen)) if gen[k, 7] > 0 and int(gen[k, 0]) in self.idx]
        self.gout = [k for k in range(len(gen)) if k not in set(self.g)]
        self.F = [self.idx[int(br[k, 0])] for k in self.br]
        self.T = [self.idx[int(br[k, 1])] for k in self.br]
        self.gb = [self.idx[int(gen[k, 0])] for k in self.g]
        self.gens_at = [[k for k, b in zip(self.g, self.gb) if b == i] for i in range(self.n)]
        t = [int(bus[k, 1]) for k in self.rows]
        has = [len(x) > 0 for x in self.gens_at]
        self.refs = [i for i in range(self.n) if t[i] == 3 and has[i]]
        self.pv = [i for i in range(self.n) if t[i] == 2 and has[i]]
        self.pq = [i for i in range(self.n) if t[i] == 1 or not has[i]]
        if not self.refs and self.pv:
            self.refs, self.pv = [self.pv[0]], self.pv[1:]
        r = bus[self.rows]
        self.Sd = (r[:, 2] + 1j * r[:, 3]) / self.base
        self.Ysh = (r[:, 4] + 1j * r[:, 5]) / self.base

    def ybus(self):
        Y = np.zeros((self.n, self.n), complex)
        for k, f, t in zip(self.br, self.F, self.T):
            a, b, c, e = branch_y(self.branch[k])
            Y[f, f] += a
            Y[f, t] += b
            Y[t, f] += c
            Y[t, t] += e
        for i in range(self.n):
            Y[i, i] += self.Ysh[i]
        return Y

    def flows(self, V):
        """Complex from/to flows (MVA) per in-service branch."""
        Sf, St = [], []
        for k, f, t in zip(self.br, self.F, self.T):
            a, b, c, e = branch_y(self.branch[k])
            Sf.append(V[f] * (a * V[f] + b * V[t]).conjugate() * self.base)
            St.append(V[t] * (c * V[f] + e * V[t]).conjugate() * self.base)
        return np.array(Sf), np.array(St)

    def sbus(self):
        S = -self.Sd.copy()
        for k, b in zip(self.g, self.gb):
            S[b] += complex(self.gen[k, 1], self.gen[k, 2]) / self.base
        return S

    def dc(self):
        """B matrix, Bf, flow offsets of the DC model (per unit)."""
        n, m = self.n, len(self.br)
        B, Bf, Pf = np.zeros((n, n)), np.zeros((m, n)), np.zeros(m)
        for i, (k, f, t) in enumerate(zip(self.br, self.F, self.T)):
            b = self.branch[k]
            s = 1.0 / b[3] / (b[8] if b[8] != 0 else 1.0)
            Bf[i, f] += s
            Bf[i, t] -= s
            Pf[i] = -s * b[9] * math.pi / 180
            B[f, f] += s
            B[t, t] += s
            B[f, t] -= s
            B[t, f] -= s
        Pb = np.zeros(n)
        for i, (f, t) in enumerate(zip(self.F, self.T)):
            Pb[f] += Pf[i]
            Pb[t] -= Pf[i]
        return B, Bf, Pf, Pb

    def start(self):
        """Newton start: bus VM/VA with set-points imposed at voltage-controlled buses
        (by the last in-service generator row there)."""
        r = self.bus[self.rows]
        vm, va = r[:, 7].copy(), r[:, 8] * math.pi / 180
        pq = set(self.pq)
        for k, b in zip(self.g, self.gb):
            if b not in pq:
                vm[b] = self.gen[k, 5]
        return vm, va

    def jac(self, Y, vm, va):
        """Newton Jacobian by the textbook polar formulas."""
        n = self.n
        G, B = Y.real, Y.imag
        H, N, M, L = (np.zeros((n, n)) for _ in range(4))
        P = np.zeros(n)
        Q = np.zeros(n)
        for i in range(n):
            for j in range(n):
                th = va[i] - va[j]
                P[i] += vm[i] * vm[j] * (G[i, j] * math.cos(th) + B[i, j] * math.sin(th))
                Q[i] += vm[i] * vm[j] * (G[i, j] * math.sin(th) - B[i, j] * math.cos(th))
        for i in range(n):
            for j in range(n):
                if i != j:
                    th = va[i] - va[j]
                    c, s = math.cos(th), math.sin(th)
                    H[i, j] = vm[i] * vm[j] * (G[i, j] * s - B[i, j] * c)
                    N[i, j] = vm[i] * (G[i, j] * c + B[i, j] * s)
                    M[i, j] = -vm[i] * vm[j] * (G[i, j] * c + B[i, j] * s)
                    L[i, j] = vm[i] * (G[i, j] * s - B[i, j] * c)
            H[i, i] = -Q[i] - B[i, i] * vm[i] ** 2
            N[i, i] = P[i] / vm[i] + G[i, i] * vm[i]
            M[i, i] = P[i] - G[i, i] * vm[i] ** 2
            L[i, i] = Q[i] / vm[i] - B[i, i] * vm[i]
        return P, Q, H, N, M, L

    def newton(self, tol=1e-10, max_it=12, S=None, start=None):
        """Independent Newton power flow. Returns (vm, va, iterations or None, worst cond)."""
        Y = self.ybus()
        S = self.sbus() if S is None else S
        vm, va = self.start() if start is None else (start[0].copy(), start[1].copy())
        pv, pq = list(self.pv), list(self.pq)
        pvpq = pv + pq
        worst, hist = 1.0, []
        for it in range(max_it + 1):
            P, Q, H, N, M, L = self.jac(Y, vm, va)
            F = np.concatenate([(P - S.real)[pvpq], (Q - S.imag)[pq]])
            nrm = np.max(np.abs(F)) if len(F) else 0.0
            hist.append(nrm)
            if not np.isfinite(nrm):
                return vm, va, None, worst, hist
            if nrm < tol:
                return vm, va, it, worst, hist
            J = np.block([[H[np.ix_(pvpq, pvpq)], N[np.ix_(pvpq, pq)]],
                          [M[np.ix_(pq, pvpq)], L[np.ix_(pq, pq)]]])
            worst = max(worst, np.linalg.cond(J))
            if worst > 1e12:
                return vm, va, None, worst, hist
            dx = -np.linalg.solve(J, F)
            va[pvpq] += dx[:len(pvpq)]
            vm[pq] += dx[len(pvpq):]
            if np.any(vm <= 0):
                return vm, va, None, worst, hist
        return vm, va, None, worst, hist


def _ybus_mod(L, r0=False, tap1=False, shift0=False, b0=False, sh0=False):
    Y = np.zeros((L.n, L.n), complex)
    for k, f, t in zip(L.br, L.F, L.T):
        row = list(L.branch[k])
        if r0:
            row[2] = 0.0
        if b0:
            row[4] = 0.0
        if tap1:
            row[8] = 1.0
        if shift0:
            row[9] = 0.0
        a, b, c, e = branch_y(row)
        Y[f, f] += a
        Y[f, t] += b
        Y[t, f] += c
        Y[t, t] += e
    for i in range(L.n):
        Y[i, i] += L.Ysh[i].real + (0 if sh0 else 1j * L.Ysh[i].imag)
    return Y


def fd_matrices(L, alg):
    Bp = -_ybus_mod(L, r0=(alg == 2), tap1=True, b0=True, sh0=True).imag
    Bpp = -_ybus_mod(L, r0=(alg == 3), shift0=True).imag
    return Bp, Bpp


def fast_decoupled(L, alg, tol, max_it):
    Y, S = L.ybus(), L.sbus()
    vm, va = L.start()
    pvpq, pq = list(L.pv) + list(L.pq), list(L.pq)
    Bp, Bpp = fd_matrices(L, alg)
    Bp, Bpp = Bp[np.ix_(pvpq, pvpq)], Bpp[np.ix_(pq, pq)]

    def mis():
        V = vm * np.exp(1j * va)
        m = (V * np.conj(Y @ V) - S) / vm
        return m.real[pvpq], m.imag[pq], max([0.0] + list(abs(m.real[pvpq])) + list(abs(m.imag[pq])))
    p, q, nrm = mis()
    if nrm < tol:
        return vm, va, 0
    for it in range(1, max_it + 1):
        va[pvpq] -= np.linalg.solve(Bp, p)
        p, q, nrm = mis()
        if nrm < tol:
            return vm, va, it
        if len(pq):
            vm[pq] -= np.linalg.solve(Bpp, q)
        p, q, nrm = mis()
        if not np.isfinite(nrm) or nrm > 1e3:
            return vm, va, None
        if nrm < tol:
            return vm, va, it
    return vm, va, None


def gauss_seidel(L, tol, max_it):
    Y, S = L.ybus(), L.sbus()
    vm, va = L.start()
    V = vm * np.exp(1j * va)
    for it in range(max_it + 1):
        m = V * np.conj(Y @ V) - S
        nrm = max([0.0] + [abs(m[i].real) for i in L.pv + L.pq] + [abs(m[i].imag) for i in L.pq])
        if nrm < tol:
            return V, it
        if not np.isfinite(nrm) or nrm > 1e3:
            return V, None
        for i in L.pq:
            V[i] += (np.conj(S[i] / V[i]) - Y[i] @ V) / Y[i, i]
        for i in L.pv:
            s = S[i].real + 1j * (V[i] * np.conj(Y[i] @ V)).imag
            V[i] += (np.conj(s / V[i]) - Y[i] @ V) / Y[i, i]
            V[i] = vm[i] * V[i] / abs(V[i])
    return V, None


def share_q(qtot, lo, hi):
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    if len(lo) == 1:
        return np.array([qtot])
    rng = (hi - lo).sum()
    if abs(rng) < 1e-12:
        return np.full(len(lo), qtot / len(lo))
    return lo + (qtot - lo.sum()) / rng * (hi - lo)


def qlim_model(L, one_at_a_time, tolq):
    """Reference model of reactive limit enforcement.

    Returns (status, V, fixed) with status 'ok', 'infeasible', or None when the
    outcome is numerically delicate (ties, borderline violations, slow Newton).
    """
    import copy
    M = copy.copy(L)
    M.refs, M.pv, M.pq = list(L.refs), list(L.pv), list(L.pq)
    Y = L.ybus()
    S = L.sbus()
    for k, b in zip(L.g, L.gb):              # Q of regulated buses is free; of PQ-bus units scheduled
        pass
    fixed = {}
    ref0 = L.refs[0]
    vm0, va0 = L.start()
    for _ in range(3 * len(L.g) + 2):
        M2 = copy.copy(M)
        vm, va, it, cond, hist = M2.newton(tol=1e-11, max_it=12, S=S, start=(vm0, va0))
        if it is None or it > 8 or cond > 1e4:
            return None, None, fixed
        V = vm * np.exp(1j * va)
        Sb = V * np.conj(Y @ V)
        q = {}
        for i in range(L.n):
            free = [k for k in L.gens_at[i] if k not in fixed]
            if not free:
                continue
            tot = (Sb[i].imag + L.Sd[i].imag) * L.base - sum(fixed.get(k, 0.0) for k in L.gens_at[i])
            for k, v in zip(free, share_q(tot, [L.gen[k, 4] for k in free], [L.gen[k, 3] for k in free])):
                q[k] = v
        over = {k: q[k] - L.gen[k, 3] for k in q}
        under = {k: L.gen[k, 4] - q[k] for k in q}
        delicate = [k for k in q if min(abs(over[k] - tolq), abs(under[k] - tolq)) < 1e-6]
        if delicate:
            return None, None, fixed
        viol = [k for k in q if over[k] > tolq or under[k] > tolq]
        if not viol:
            shift = va0[ref0] - va[ref0]
            return 'ok', V * np.exp(1j * shift), fixed
        vb = set(L.gb[L.g.index(k)] for k in viol)
        if all(i in vb for i in M.refs + M.pv):
            return 'infeasible', None, fixed
        if one_at_a_time:
            amt = sorted(((max(over[k], under[k]), k) for k in viol), reverse=True)
            if len(amt) > 1 and amt[0][0] - amt[1][0] < 1e-6:
                return None, None, fixed
            viol = [amt[0][1]]
        if len(L.refs) > 1 and any(L.gb[L.g.index(k)] in M.refs for k in viol):
            return 'refused', None, fixed
        for i in M.refs:
            S[i] = Sb[i].real + 1j * S[i].imag
        for k in viol:
            fixed[k] = L.gen[k, 3] if over[k] > tolq else L.gen[k, 4]
        conv = sorted(set(L.gb[L.g.index(k)] for k in viol))
        for i in conv:
            # units left at the bus keep the output they just had
            S[i] = S[i].real + 1j * (sum(fixed[k] if k in fixed else q[k] for k in L.gens_at[i]) / L.base - L.Sd[i].imag)
            if i in M.pv:
                M.pv.remove(i)
                M.pq.append(i)
            if i in M.refs:
                M.refs.remove(i)
                M.pq.append(i)
        # PQ buses with units: their free units keep the output just reported
        for i in M.pq:
            if L.gens_at[i]:
                S[i] = S[i].real + 1j * (sum(fixed[k] if k in fixed else q[k] for k in L.gens_at[i]) / L.base - L.Sd[i].imag)
        M.pq = sorted(M.pq)
        if not M.refs:
            # the first remaining PV bus becomes the slack
            M.refs, M.pv = [M.pv[0]], M.pv[1:]
    return None, None, fixed
