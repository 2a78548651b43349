"""P01  A successful Newton power flow is a solution of the network equations."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import opts, close, voltages, base_labels

ID = 'P01'
RULE = ('random connected networks (2-9 energised buses, taps, shifters, shunts, parallel/out-of-service elements, '
        'isolated buses, several generators per bus, arbitrary numbering and row order) solved by runpf with Newton; '
        'non-trivial = at least one PQ or PV bus and the solver took a step (start was not already a solution)')


def make(d, mode):
    net = gen.draw_net(d, nb_max=9, stress=1.0 if mode == 'near' else 1.6)
    ppc = net['ppc']
    spec = {'net': net}
    if mode == 'near':
        gen.perturb_start(d, ppc, .03, 4.0)
    else:
        flat = d.chance(.5)
        for r in ppc['bus']:
            if flat:
                r[7] = 1.0
                r[8] = 0.0
        if not flat:
            gen.perturb_start(d, ppc, .15, 35.0)
        f = d.pick([1.0, 1.0, 1.5, 3.0, 8.0])
        for r in ppc['bus']:
            r[2] *= f
            r[3] *= f
    spec['tol'] = d.pick([1e-8, 1e-8, 1e-6, 1e-10, 1e-4])
    spec['max_it'] = d.pick([10, 10, 10, 20, 3, 1, 0])
    spec['lin'] = d.pick(['', '', 'pyrlu'])
    if mode == 'near':
        spec['max_it'] = 10
    return spec


def check(spec):
    from pypower.runpf import runpf
    net = spec['net']
    ppc = net['ppc']
    L = ref.Live(ppc)
    res, success = runpf(gen.arr(ppc), opts(PF_TOL=spec['tol'], PF_MAX_IT=spec['max_it'],
                                            PF_LIN_SOLVER_NR=spec['lin']))
    vm, va, it, cond, hist = L.newton(tol=spec['tol'], max_it=spec['max_it'])
    expect(bool(success) == bool(res['success']), 'success-flag', 'returned flag differs from results["success"]')
    labels = base_labels(net, L) + ['ref-it=%s' % it, 'success=%d' % bool(success)]
    border = any(spec['tol'] * .2 < h < spec['tol'] * 5 for h in hist)
    trust = cond < 1e5 and not border
    if it is not None and it <= 7 and trust and max(hist) < 1e2:
        # the same iteration, done independently, converges: so must this one
        expect(bool(success), 'no-convergence',
               'an independent Newton iteration from the same start converges in %d steps (limit %d)' %
               (it, spec['max_it']))
    if len(hist) == spec['max_it'] + 1 and spec['max_it'] <= 3 and it is None and trust and max(hist) < 1e2:
        expect(not success, 'false-success', 'the Newton iteration does not converge in %d steps: %s' % (spec['max_it'], hist))
    if not success:
        return labels
    V = voltages(L, res['bus'])
    bus, gn = res['bus'], res['gen']
    # residuals, from the returned tables only
    Lr = ref.Live({'baseMVA': res['baseMVA'], 'bus': bus, 'gen': gn, 'branch': res['branch']})
    S = V * np.conj(L.ybus() @ V)
    mis = S - L.sbus()
    tol = spec['tol'] * 1.5 + 1e-9
    pvpq = L.pv + L.pq
    close(mis.real[pvpq], np.zeros(len(pvpq)), tol, 'P-mismatch', 'P mismatch against the specified injections')
    close(mis.imag[L.pq], np.zeros(len(L.pq)), tol, 'Q-mismatch', 'Q mismatch against the specified injections')
    misr = S - Lr.sbus()
    # reported generation balances at every bus
    big = 1.0 + np.abs(S).max()
    close(misr, np.zeros(L.n), tol * 3 + 1e-7 * big, 'reported-balance', 'mismatch with the reported dispatch')
    v0, a0 = L.start()
    vc = L.pv + L.refs
    close(np.abs(V)[vc], v0[vc], 1e-9, 'V-setpoint', 'voltage set-points at PV/reference buses')
    close(np.angle(V[L.refs] * np.exp(-1j * a0[L.refs])), np.zeros(len(L.refs)), 1e-9, 'ref-angle', 'reference angle')
    if it is not None and it <= 7 and trust and max(hist) < 1e2:
        Vr = vm * np.exp(1j * va)
        close(V, Vr, 1e-6 * cond ** .5 + spec['tol'] * cond, 'solution', 'bus voltages vs independent Newton')
    if (it or 0) > 0:
        labels.append('nontrivial')
    return labels


SUBS = [
    Sub('near', gen.spec_strategy(make, 'near'), check, 1600, 24000),
    Sub('far', gen.spec_strategy(make, 'far'), check, 1600, 24000),
]
