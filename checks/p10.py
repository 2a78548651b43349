"""P10  First derivatives are the derivatives."""
import numpy as np
from scipy.sparse import issparse
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, opfcase
from vlib.util import close, same, snapshot, dense, base_labels

ID = 'P10'
RULE = ('random internal-numbered networks and voltage profiles far from any solution, and OPF models with random costs and limits; '
        'oracle: complex-step derivatives of independently written functions (exact to rounding); non-trivial = more than one '
        'branch and not all voltages at unit magnitude / zero angle')


def profile(d, n):
    c = d.cells(8 * n + 4)
    wide = c.chance(.4)
    vm = [c.c(.4, 1.6) if wide else c.c(.85, 1.15) for _ in range(n)]
    va = [c.c(-180, 180, 2) if wide else c.c(-40, 40, 2) for _ in range(n)]
    return vm, va


def make(d):
    net = gen.draw_net(d, nb_max=8)
    for r in net['ppc']['branch']:
        if d.chance(.1):
            r[9] = d.cf(-170, 170, 2)
    n = sum(1 for r in net['ppc']['bus'] if int(r[1]) != 4)
    vm, va = profile(d, n)
    return {'net': net, 'vm': vm, 'va': va, 'off': d.chance(.3)}


def setup(spec):
    base, bus, g, br, _ = gen.internal(spec['net']['ppc'], keep_off=spec['off'])
    L = ref.Live({'baseMVA': base, 'bus': bus, 'gen': g, 'branch': br})
    A = acopf.AcNet(L)
    va, vm = np.array(spec['va']) * np.pi / 180, np.array(spec['vm'])
    return base, bus, g, br, L, A, va, vm, vm * np.exp(1j * va)


def full(J, L, nl):
    """Rows of in-service branches put back among all branches."""
    out = np.zeros((nl, J.shape[1]), J.dtype)
    if L.br:
        out[L.br] = J
    return out


def check(spec):
    from pypower.makeYbus import makeYbus
    from pypower.dSbus_dV import dSbus_dV
    from pypower.dSbr_dV import dSbr_dV
    from pypower.dIbr_dV import dIbr_dV
    from pypower.dAbr_dV import dAbr_dV
    base, bus, g, br, L, A, va, vm, V = setup(spec)
    n, nl = L.n, len(br)
    Ybus, Yf, Yt = makeYbus(base, bus, br)
    big = 1 + np.abs(A.G).max() + np.abs(A.B).max()
    tol = 1e-11 * big * 10

    def both(fn):
        J = acopf.cstep(lambda z: np.concatenate(fn(z[:n], z[n:])), np.concatenate([va, vm]))
        return J[:, :n], J[:, n:]
    Ja, Jm = both(A.inj)
    for sp in (True, False):
        Y = Ybus if sp else Ybus.todense()
        dm, da = dSbus_dV(Y, V)
        expect(issparse(dm) == sp and issparse(da) == sp, 'form', 'sparse/dense form of dSbus_dV')
        close(dense(da), Ja[:n] + 1j * Ja[n:], tol, 'dSbus_dVa', 'sparse=%s' % sp)
        close(dense(dm), Jm[:n] + 1j * Jm[n:], tol, 'dSbus_dVm', 'sparse=%s' % sp)
    if nl and L.br:
        m = len(L.br)

        def cplx(J, k):
            return full(J[2 * k * m:(2 * k + 1) * m] + 1j * J[(2 * k + 1) * m:(2 * k + 2) * m], L, nl)
        Sa, Sm = both(A.flows)
        Ia, Im = both(A.currents)
        pf, qf, pt, qt = A.flows(va, vm)
        a, b, c, e = A.currents(va, vm)
        Sf, St = full((pf + 1j * qf)[:, None], L, nl)[:, 0], full((pt + 1j * qt)[:, None], L, nl)[:, 0]
        If, It = full((a + 1j * b)[:, None], L, nl)[:, 0], full((c + 1j * e)[:, None], L, nl)[:, 0]
        for sp in (True, False):
            yf, yt = (Yf, Yt) if sp else (Yf.todense(), Yt.todense())
            w = 'sparse=%s' % sp
            r = dSbr_dV(br, yf, yt, V)
            for k, (x, y) in enumerate(zip(r, (cplx(Sa, 0), cplx(Sm, 0), cplx(Sa, 1), cplx(Sm, 1), Sf, St))):
                close(dense(x), y, tol, 'dSbr_dV[%d]' % k, w)
            ri = dIbr_dV(br, yf, yt, V)
            for k, (x, y) in enumerate(zip(ri, (cplx(Ia, 0), cplx(Im, 0), cplx(Ia, 1), cplx(Im, 1), If, It))):
                close(dense(x), y, tol, 'dIbr_dV[%d]' % k, w)
            for kind, rr in ((0, r), (2, ri)):
                Fa, Fm = both(lambda p, q: A.flow2(p, q, kind))
                want = (full(Fa[:m], L, nl), full(Fm[:m], L, nl), full(Fa[m:], L, nl), full(Fm[m:], L, nl))
                got = dAbr_dV(*rr)
                for k, (x, y) in enumerate(zip(got, want)):
                    close(dense(x), y, tol * big * 4, 'dAbr_dV[%d]' % k, w + ' kind=%d' % kind)
    labels = base_labels(spec['net'], L)
    if nl > 1 and (np.ptp(vm) > .01 or np.ptp(va) > .01):
        labels.append('nontrivial')
    return labels


def make_opf(d):
    return opfcase.make_model(d)


def check_opf(spec):
    M = opfcase.Model(spec)
    f0 = M.cost(M.x)
    f, df = M.code_cost()[:2]
    sc = 1 + abs(f0)
    close(f, f0, 1e-9 * sc, 'cost', 'OPF cost function')
    J = acopf.cstep(M.cost, M.x)[0]
    close(df, J, 1e-9 * (1 + np.abs(J).max()), 'cost-grad', 'gradient of the OPF cost')
    h, g, dh, dg = M.code_cons()
    close(g, M.eq(M.x), 1e-9 * M.big, 'eq', 'power balance constraints')
    close(dense(dg).T, acopf.cstep(M.eq, M.x), 1e-9 * M.big, 'eq-grad', 'gradients of the power balance')
    if M.il:
        close(h, M.ineq(M.x), 1e-9 * M.big2, 'ineq', 'flow limit constraints')
        close(dense(dh).T, acopf.cstep(M.ineq, M.x), 1e-9 * M.big2, 'ineq-grad', 'gradients of the flow limits')
    else:
        expect(np.size(h) == 0, 'ineq', 'flow constraints without any limit')
    return M.labels()


SUBS = [Sub('net', gen.spec_strategy(make), check, 1200, 20000),
        Sub('opf', gen.spec_strategy(make_opf, size=4000), check_opf, 1000, 20000)]
