"""P02  Fast-decoupled (XB, BX) and Gauss-Seidel agree with Newton and with the network equations."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import opts, close, voltages, base_labels

ID = 'P02'
RULE = ('random networks with a known operating point and a perturbed or flat start, solved by runpf with PF_ALG 2, 3 or 4; '
        'oracle: independent fast-decoupled / Gauss-Seidel iterations, Newton, and the nodal balance; '
        'non-trivial = the algorithm converged after at least two iterations')


def make(d, algs):
    net = gen.draw_net(d, nb_max=8, stress=.8)
    spec = {'net': net, 'alg': d.pick(algs)}
    if d.chance(.5):
        gen.perturb_start(d, net['ppc'], .02, 3.0)
    else:
        for r in net['ppc']['bus']:
            r[7], r[8] = 1.0, (r[8] if int(r[1]) == 3 else 0.0)
    spec['tol'] = d.pick([1e-8, 1e-8, 1e-6, 1e-10, 1e-4])
    spec['max_it'] = d.pick([30, 30, 30, 100, 2, 5]) if spec['alg'] != 4 else d.pick([1000, 1000, 20])
    return spec


def check(spec):
    from pypower.runpf import runpf
    net, alg, tol, mx = spec['net'], spec['alg'], spec['tol'], spec['max_it']
    ppc = net['ppc']
    L = ref.Live(ppc)
    labels = base_labels(net, L) + ['alg=%d' % alg]
    vm, va, it, cond, hist = L.newton(tol=1e-12, max_it=15)
    if alg == 4:
        Vx, k = ref.gauss_seidel(L, tol, min(mx, 400))
        res, ok = runpf(gen.arr(ppc), opts(PF_ALG=4, PF_TOL=tol, PF_MAX_IT_GS=mx))
    else:
        a, b, k = ref.fast_decoupled(L, alg, tol, mx)
        Vx = a * np.exp(1j * b)
        res, ok = runpf(gen.arr(ppc), opts(PF_ALG=alg, PF_TOL=tol, PF_MAX_IT_FD=mx))
    labels.append('k=%s' % (k if k is None or k < 10 else '10+'))
    expect(bool(ok) == bool(res['success']), 'success-flag')
    if k is not None and k > 1 and cond < 1e4:
        # the number of iterations needed, where the tolerance is not met or missed by a hair
        lim = 'PF_MAX_IT_GS' if alg == 4 else 'PF_MAX_IT_FD'
        ks = []
        for f in (1.05, .95):
            if tol * f < 3e-10:
                ks.append(None)
            elif alg == 4:
                ks.append(ref.gauss_seidel(L, tol * f, 400)[1])
            else:
                ks.append(ref.fast_decoupled(L, alg, tol * f, 200)[2])
        if None not in ks and ks[0] == ks[1] == k:
            # (several PV buses: whether their magnitudes are reset one by one or together is not specified)
            sure = alg != 4 or len(L.pv) <= 1
            r2, ok2 = runpf(gen.arr(ppc), opts(PF_ALG=alg, PF_TOL=tol, **{lim: k if sure else int(1.5 * k) + 3}))
            expect(bool(ok2), 'slow', 'alg %d: %d iterations are enough, but it fails with that limit' % (alg, k))
            if sure:
                r2, ok2 = runpf(gen.arr(ppc), opts(PF_ALG=alg, PF_TOL=tol, **{lim: k - 1}))
                expect(not ok2, 'limit', 'alg %d: succeeds within %d iterations, although %d are needed' % (alg, k - 1, k))
            labels.append('exact-k')
    if k is not None and cond < 1e4 and (k < .6 * mx or k == 0):
        expect(bool(ok), 'no-convergence', 'alg %d: the independent iteration converges in %d steps (limit %d)' % (alg, k, mx))
    if not ok:
        return labels + ['failed']
    V = voltages(L, res['bus'])
    mis = V * np.conj(L.ybus() @ V) - L.sbus()
    t = tol * 2 + 1e-9
    pvpq = L.pv + L.pq
    close(mis.real[pvpq], np.zeros(len(pvpq)), t, 'P-mismatch', 'alg %d P mismatch' % alg)
    close(mis.imag[L.pq], np.zeros(len(L.pq)), t, 'Q-mismatch', 'alg %d Q mismatch' % alg)
    v0, a0 = L.start()
    vc = L.pv + L.refs
    close(np.abs(V)[vc], v0[vc], 1e-9, 'V-setpoint', 'voltage set-points')
    close(np.angle(V[L.refs] * np.exp(-1j * a0[L.refs])), np.zeros(len(L.refs)), 1e-9, 'ref-angle', 'reference angle')
    if it is not None and it <= 6 and cond < 1e4 and k is not None:
        Vn = vm * np.exp(1j * va)
        if np.abs(Vx - Vn).max() < .05:
            close(V, Vn, tol * cond * 3 + 1e-7, 'disagrees', 'alg %d voltages vs Newton solution' % alg)
            res1, ok1 = runpf(gen.arr(ppc), opts(PF_TOL=1e-10, PF_MAX_IT=20))
            expect(bool(ok1), 'newton-fails', 'Newton fails where alg %d succeeds' % alg)
            close(V, voltages(L, res1['bus']), tol * cond * 3 + 1e-7, 'disagrees-newton', 'alg %d vs runpf Newton' % alg)
            pb = np.abs(L.bus[:, 2]).max() + L.base
            if tol <= 1e-6:
                close(res['gen'][:, [1, 2]], res1['gen'][:, [1, 2]], (tol * cond * 30 + 1e-6) * pb * 5, 'dispatch', 'generator dispatch vs Newton')
    if k is not None and k >= 2:
        labels.append('nontrivial')
    return labels


SUBS = [
    Sub('fd', gen.spec_strategy(make, [2, 3]), check, 1600, 24000),
    Sub('gs', gen.spec_strategy(make, [4]), check, 320, 6000),
]
