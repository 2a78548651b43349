"""P11  Second derivatives are the derivatives of the first."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, acopf, opfcase
from vlib.util import close, dense, base_labels
from checks import p10

ID = 'P11'
RULE = ('random networks, voltage profiles and multipliers, and OPF models with random costs, user costs and limits; oracle: '
        'extrapolated central differences of exact (complex-step) gradients of independently written functions; non-trivial = '
        'more than one branch and a profile with differing voltages')


def make(d):
    s = p10.make(d)
    nl = len(s['net']['ppc']['branch'])
    e = d.cells(2 * (len(s['vm']) + nl) + 8)
    s['lamb'] = [e.c(-30, 30, 2) for _ in s['vm']]
    s['mu'] = [e.c(-30, 30, 2) for _ in range(nl)]
    return s


def hess(fn, va, vm):
    """Hessian of a scalar analytic fn(va, vm)."""
    n = len(va)
    return acopf.hessian(lambda z: fn(z[:n], z[n:]), np.concatenate([va, vm]))


def blocks(aa, av, vb, vv):
    return np.block([[dense(aa), dense(av)], [dense(vb), dense(vv)]])


def check(spec):
    from scipy.sparse import csr_matrix
    from pypower.makeYbus import makeYbus
    from pypower.d2Sbus_dV2 import d2Sbus_dV2
    from pypower.d2Sbr_dV2 import d2Sbr_dV2
    from pypower.d2Ibr_dV2 import d2Ibr_dV2
    from pypower.d2ASbr_dV2 import d2ASbr_dV2
    from pypower.d2AIbr_dV2 import d2AIbr_dV2
    from pypower.dSbr_dV import dSbr_dV
    from pypower.dIbr_dV import dIbr_dV
    base, bus, g, br, L, A, va, vm, V = p10.setup(spec)
    n, nl = L.n, len(br)
    lam = np.array(spec['lamb'])
    Ybus, Yf, Yt = makeYbus(base, bus, br)
    big = 1 + np.abs(A.G).max() + np.abs(A.B).max()
    tol = 1e-9 * big * (1 + np.abs(lam).max())
    HP = hess(lambda a, m: lam @ A.inj(a, m)[0], va, vm)
    HQ = hess(lambda a, m: lam @ A.inj(a, m)[1], va, vm)
    close(blocks(*d2Sbus_dV2(Ybus, V, lam)), HP + 1j * HQ, tol, 'd2Sbus_dV2')
    if nl and L.br:
        mu = np.array(spec['mu'])[:nl]
        m = mu[L.br]
        tol = 1e-9 * big * (1 + np.abs(mu).max())
        r, ri = dSbr_dV(br, Yf, Yt, V), dIbr_dV(br, Yf, Yt, V)
        for end in (0, 1):
            Y = (Yf, Yt)[end]
            col = br[:, end].astype(int)
            C = csr_matrix((np.ones(nl), (range(nl), col)), (nl, n))
            w = 'end=%d' % end
            H = hess(lambda a, v: m @ A.flows(a, v)[2 * end], va, vm) + 1j * hess(lambda a, v: m @ A.flows(a, v)[2 * end + 1], va, vm)
            close(blocks(*d2Sbr_dV2(C, Y, V, mu)), H, tol, 'd2Sbr_dV2', w)
            H = hess(lambda a, v: m @ A.currents(a, v)[2 * end], va, vm) + 1j * hess(lambda a, v: m @ A.currents(a, v)[2 * end + 1], va, vm)
            close(blocks(*d2Ibr_dV2(Y, V, mu)), H, tol, 'd2Ibr_dV2', w)
            H = hess(lambda a, v: m @ A.flow2(a, v, 0)[end], va, vm)
            close(blocks(*d2ASbr_dV2(r[2 * end], r[2 * end + 1], r[4 + end], C, Y, V, mu)), H, tol * big, 'd2ASbr_dV2', w)
            H = hess(lambda a, v: m @ A.flow2(a, v, 1)[end], va, vm)
            close(blocks(*d2ASbr_dV2(r[2 * end].real, r[2 * end + 1].real, r[4 + end].real, C, Y, V, mu)), H, tol * big,
                  'd2ASbr_dV2-P', w)
            H = hess(lambda a, v: m @ A.flow2(a, v, 2)[end], va, vm)
            close(blocks(*d2AIbr_dV2(ri[2 * end], ri[2 * end + 1], ri[4 + end], Y, V, mu)), H, tol * big, 'd2AIbr_dV2', w)
    labels = base_labels(spec['net'], L)
    if nl > 1 and (np.ptp(vm) > .01 or np.ptp(va) > .01):
        labels.append('nontrivial')
    return labels


def check_opf(spec):
    M = opfcase.Model(spec)
    labels = M.labels()
    x, h = M.x, 2e-3
    if M.uc:          # central differences must not straddle a dead-zone corner
        N, k = np.array(M.uc['N']), np.array(M.uc['kk'])
        r = N @ x[:M.nx] - np.array(M.uc['rh'])
        reach = 3 * h * np.abs(N).max(axis=1)
        if np.any((np.abs(np.abs(r) - k) < reach) & (k > 0)) or np.any((np.abs(r) < 1e-9)):
            labels = [l for l in labels if l != 'nontrivial'] + ['corner']
            return labels
    lam, mu = np.array(spec['lam']), np.array(spec['mu'])
    # the cost Hessian alone
    f, df, d2f = M.code_cost(True)
    Hf = acopf.hessian(M.cost, x, h)
    close(dense(d2f), Hf, 1e-8 * (1 + np.abs(Hf).max() + np.abs(df).max()), 'cost-hess', 'Hessian of the OPF cost')
    H = acopf.hessian(lambda z: M.lagr(z, lam, mu, spec['cm']), x, h)
    got = dense(M.code_hess(lam, mu, spec['cm']))
    tol = 1e-8 * (1 + np.abs(H).max() + M.big)
    close(got, H, tol, 'lagrangian-hess', 'Hessian of the OPF Lagrangian')
    return labels


SUBS = [Sub('net', gen.spec_strategy(make), check, 640, 12000),
        Sub('opf', gen.spec_strategy(p10.make_opf, size=4500), check_opf, 560, 12000)]
