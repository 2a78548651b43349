"""P05  Enforcing generator reactive limits gives a consistent limited solution."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import opts, close, voltages, base_labels, wrapdeg

ID = 'P05'
RULE = ('random networks with generator reactive limits drawn around the unlimited solution, solved with ENFORCE_Q_LIMS 1 or 2 '
        '(Newton or fast-decoupled); oracle: limits, unchanged schedules and loads, nodal balance with the reported dispatch, '
        'set-points at buses still regulated; non-trivial = at least one unit ended at a limit and the run succeeded')


def make(d, multi=False):
    net = gen.draw_net(d, nb_max=8, forbid=() if multi else ('multiref',), force=('multiref',) if multi else (), stress=.8)
    ppc = net['ppc']
    L = ref.Live(ppc)
    V = np.array([v for v in net['sol']['vm']])[L.rows] * np.exp(1j * np.pi / 180 * np.array(net['sol']['va'])[L.rows])
    S = V * np.conj(L.ybus() @ V) * L.base
    # reactive output of each bus at the unlimited operating point, shared equally; limits around it
    p = d.pick([.0, .3, .3, .6])
    for k in range(len(ppc['gen'])):
        c = d.cells(10)
        r = ppc['gen'][k]
        if k in L.g:
            b = L.gb[L.g.index(k)]
            q = (S[b].imag + L.Sd[b].imag * L.base) / len(L.gens_at[b])
        else:
            q = 0.0
        up, dn = c.f(.05, 1, 3) * L.base, c.f(.05, 1, 3) * L.base
        if c.chance(p):
            if c.chance(.5):
                up = -c.f(.01, .25, 3) * L.base
                dn = abs(up) + dn
            else:
                dn = -c.f(.01, .25, 3) * L.base
                up = abs(dn) + up
        r[3], r[4] = round(q + up, 2), round(q - dn, 2)
        if c.chance(.06):
            r[3] = r[4]
    return {'net': net, 'qlim': d.pick([1, 1, 2, 2, True]), 'alg': d.pick([1, 1, 1, 2]), 'viol': d.pick([5e-6, 5e-6, 1e-2])}


def check(spec):
    from pypower.runpf import runpf
    net, tolq = spec['net'], spec['viol']
    ppc = net['ppc']
    L = ref.Live(ppc)
    labels = base_labels(net, L) + ['qlim=%s' % spec['qlim']]
    o = dict(PF_ALG=spec['alg'], PF_TOL=1e-10, PF_MAX_IT_FD=100, PF_MAX_IT=20, OPF_VIOLATION=tolq)
    res0, ok0 = runpf(gen.arr(ppc), opts(**o))
    st = None
    if spec['alg'] == 1:
        st, Vm, fixed = ref.qlim_model(L, spec['qlim'] is not True and spec['qlim'] == 2, tolq)
        labels.append('model=%s' % st)
    try:
        res, ok = runpf(gen.arr(ppc), opts(ENFORCE_Q_LIMS=spec['qlim'], **o))
    except ValueError as e:
        # documented: no enforcement at slack buses in systems with several
        if len(L.refs) < 2 or 'multiple slacks' not in str(e) or st not in (None, 'refused'):
            raise
        return labels + ['refused', 'nontrivial']
    expect(st != 'refused', 'not-refused', 'the limits of a unit at one of several reference buses are violated: %d references, returned %r' % (len(L.refs), bool(ok)))
    g0, g, bus, br = res0['gen'], res['gen'], res['bus'], res['branch']
    expect(bool(ok) == bool(res['success']), 'success-flag')
    viol0 = [k for k in L.g if g0[k, 2] > L.gen[k, 3] + tolq or g0[k, 2] < L.gen[k, 4] - tolq]
    if ok0 and not viol0:
        expect(bool(ok), 'no-violation-fails', 'no limit is violated yet the limited power flow fails')
        close(bus, res0['bus'], 1e-9, 'no-violation-differs', 'bus table with and without limits')
        close(g, res0['gen'], 1e-7, 'no-violation-differs', 'gen table with and without limits')
        close(br, res0['branch'], 1e-7, 'no-violation-differs', 'branch table with and without limits')
        return labels + ['no-violation']
    vcb = set(L.pv) | set(L.refs)
    if ok0 and vcb and all(any(k in viol0 for k in L.gens_at[b]) for b in vcb):
        expect(not ok, 'infeasible', 'every voltage-controlled bus violates its limits: must be reported as infeasible')
    if spec['alg'] == 1:
        if st == 'ok':
            expect(bool(ok), 'model-converges', 'the reference model of limit enforcement finds a solution, runpf does not')
            close(voltages(L, bus), Vm, 1e-6, 'model-differs', 'bus voltages vs the reference model of limit enforcement')
            if fixed:
                close([g[k, 2] for k in fixed], list(fixed.values()), 1e-9, 'not-at-limit', 'output of the limited units')
        elif st == 'infeasible':
            expect(not ok, 'infeasible', 'the reference model finds every regulated bus in violation')
    if not ok:
        return labels + ['failed']
    # limits hold
    for k in L.g:
        expect(L.gen[k, 4] - tolq * 1.01 <= g[k, 2] <= L.gen[k, 3] + tolq * 1.01, 'limit-violated',
               'gen row %d: Qg=%r outside [%r, %r]' % (k, g[k, 2], L.gen[k, 4], L.gen[k, 3]))
    # loads, status and schedules are what the user gave
    close(bus[:, [0, 2, 3, 4, 5, 6]], L.bus[:, [0, 2, 3, 4, 5, 6]], 1e-9 * (1 + np.abs(L.bus[:, 2:4]).max()), 'bus-data', 'loads and shunts after the run')
    close(g[:, [0, 3, 4, 5, 6, 8, 9]], L.gen[:, [0, 3, 4, 5, 6, 8, 9]], 0, 'gen-data', 'generator input columns')
    expect(np.array_equal(g[:, 7] > 0, L.gen[:, 7] > 0), 'gen-status', 'generator status changed')
    # nodal balance with the reported dispatch
    V = voltages(L, bus)
    S = V * np.conj(L.ybus() @ V)
    Lr = ref.Live({'baseMVA': L.base, 'bus': np.column_stack([bus[:, 0], L.bus[:, 1], bus[:, 2:]]), 'gen': g, 'branch': br})
    big = 1 + np.abs(S).max()
    close(S, Lr.sbus(), 1e-7 * big, 'balance', 'nodal balance with the reported dispatch')
    # bus types and set-points
    atlim = [k for k in L.g if abs(g[k, 2] - L.gen[k, 3]) <= 1e-9 or abs(g[k, 2] - L.gen[k, 4]) <= 1e-9]
    conv = 0
    for i in sorted(vcb):
        row = L.rows[i]
        vset = L.gen[L.gens_at[i][-1], 5]
        if abs(abs(V[i]) - vset) > 1e-8:
            conv += 1
            expect(int(bus[row, 1]) == 1, 'bus-type', 'bus %d left its set-point but has type %d' % (bus[row, 0], bus[row, 1]))
            expect(any(k in atlim for k in L.gens_at[i]), 'setpoint-lost',
                   'bus %d left its set-point %r (now %r) with no unit at a limit' % (bus[row, 0], vset, abs(V[i])))
        if int(bus[row, 1]) in (2, 3):
            close(abs(V[i]), vset, 1e-8, 'V-setpoint', 'set-point at a bus still voltage-controlled')
    nref = [i for i in range(L.n) if int(bus[L.rows[i], 1]) == 3 and L.gens_at[i]]
    if int(L.bus[L.rows[L.refs[0]], 1]) == 3:
        expect(len(nref) == len(L.refs), 'ref-count', 'result has %d reference buses instead of %d' % (len(nref), len(L.refs)))
    # original reference angle is preserved whatever bus is slack now
    r0 = L.refs[0]
    for i in L.refs:
        close(wrapdeg(bus[L.rows[i], 8] - L.bus[L.rows[i], 8]), 0.0, 1e-7, 'ref-angle', 'angle of the original reference bus %d' % i)
    # P schedules: only reference buses (old, and successors) may deviate
    off = [i for i in range(L.n) if L.gens_at[i] and abs(sum(g[k, 1] - L.gen[k, 1] for k in L.gens_at[i])) > 1e-6 * big * L.base]
    for i in off:
        expect(i in vcb, 'schedule', 'P schedule changed at bus row %d, which never was a candidate slack' % L.rows[i])
    if r0 in nref:
        expect(all(i in L.refs for i in off), 'schedule', 'the slack did not move but P changed at other buses')
    if conv or viol0:
        labels.append('limited')
        labels.append('nontrivial')
    if nref and r0 not in nref:
        labels.append('slack-moved')
    return labels


SUBS = [Sub('qlim', gen.spec_strategy(make), check, 2400, 40000),
        Sub('multi', gen.spec_strategy(make, True), check, 600, 8000)]
