"""P20  Interface flow limits are enforced, in DC and AC problems, at least cost."""
import math
import re
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, acsol, dcopf
from vlib.util import opts, close, same, snapshot, base_labels, saved, printed

ID = 'P20'
RULE = ('random OPF cases (AC and DC) with 1-4 interfaces over random branches in either direction (also out-of-service branches, the first branch, '
        'interfaces without limits), limits around a feasible flow, numbers and rows in any order; oracle: flows recomputed from the tables, the optimality '
        'conditions with the interface multipliers, and for DC an independent LP/QP. Non-trivial: solved with a binding interface limit')
TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-8, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)
D2R = math.pi / 180


def make(d, mode):
    net = gen.draw_net(d, nb_max=6, stress=.7)
    if mode == 'dc':
        dcopf.add_dcopf(d, net)
    else:
        acopf.add_opf(d, net, pqcap=.1, disp=.3, qcost=.2)
    ppc = net['ppc']
    L = ref.Live(ppc)
    nl = len(ppc['branch'])
    va = dcopf.point(L)[0] if mode == 'dc' else np.array(net['sol']['va'])[L.rows] * D2R
    B, Bf, Pf, Pb = L.dc()
    fl = np.zeros(nl)
    fl[L.br] = (Bf @ va + Pf) * L.base
    ni = d.pick([1, 1, 2, 2, 3, 4])
    e = d.cells(12 * ni + 2 * nl * ni + 8)
    nums = [[1, 2, 3, 4], [7, 3, 12, 5], [4, 3, 2, 1], [10, 20, 15, 5]][e.i_(0, 3)][:ni]
    M, lims = [], []
    for n in nums:
        f = 0.0
        for k in range(nl):
            if e.chance(.5) or nl == 1:
                s = e.pick([1, -1])
                M.append([n, k, s])
                f += s * fl[k]
        w = lambda: (e.f(0, .05, 3) if e.chance(.5) else e.f(.05, .6, 3)) * abs(f) + .5
        m = e.pick(['both', 'both', 'up', 'lo', 'none'])
        lo, hi = round(f - w(), 4), round(f + w(), 4)
        if m == 'up':
            lo = e.pick([-9999.0, float('-inf')])
        elif m == 'lo':
            hi = e.pick([9999.0, float('inf')])
        if m != 'none':
            lims.append([n, lo, hi])
    if not lims:
        lims.append([99, -10.0, 10.0])      # an interface without branches
    M = [M[i] for i in e.perm(len(M))] if e.chance(.3) else M
    bad = e.chance(.05) and len(M) > 0
    if bad:
        n = lims[0][0]
        t = 1 + sum(abs(v) for r in ppc['gen'] for v in (r[8], r[9])) + sum(abs(r[2]) + abs(r[4]) for r in ppc['bus'])
        lims[0][1:] = [10 * t * nl, 11 * t * nl]
    if not any(k == 0 and s < 0 for _, k, s in M):
        mtype = d.pick(['int', 'float'])
    else:
        mtype = 'float'
    return {'net': net, 'dc': mode == 'dc', 'map': M, 'lims': lims, 'bad': bad, 'mtype': mtype, 'via': d.pick(['runopf', 'opf', 'again']),
            'alg': d.pick([0, 0, 1]), 'kind': d.pick([0, 0, 1, 2]), 'tight': d.chance(.7), 'save': d.pick([0, 0, 0, 1, 2])}


def check(s):
    from pypower.toggle_iflims import toggle_iflims
    from pypower.api import runopf, opf
    net = s['net']
    ppc = net['ppc']
    case = gen.arr(ppc)
    L = ref.Live(ppc)
    base = L.base
    M = s['map']
    case['if'] = {'map': np.array([[n, math.copysign(k, g)] for n, k, g in M], float).reshape(-1, 2) if s['mtype'] == 'float' else
                  np.array([[n, k * g] for n, k, g in M], int).reshape(-1, 2), 'lims': np.array(s['lims'], float)}
    before = snapshot(case)
    k = dict(TIGHT if s['tight'] else {}, OPF_FLOW_LIM=s['kind'])
    if s['dc']:
        k.update(PF_DC=1, OPF_ALG_DC=250 if s['alg'] else 0)
    else:
        k.update(OPF_ALG=565 if s['alg'] else 0)
    o = opts(**k)
    on = toggle_iflims(case, 'on')
    keep = snapshot(on)
    res = opf(on, o) if s['via'] == 'opf' else runopf(on, o)
    expect(same({a: b for a, b in keep.items() if a != 'userfcn'}, {a: b for a, b in on.items() if a != 'userfcn'}), 'input-modified', 'the case passed in was modified')
    if s['via'] == 'again':     # a result is a case
        first = snapshot({a: res[a] for a in ('bus', 'gen', 'branch', 'if', 'f')})
        r2 = runopf(res, o)
        expect(same(first, {a: res[a] for a in ('bus', 'gen', 'branch', 'if', 'f')}), 'input-modified', 'solving a result again modified it')
        expect(bool(r2['success']) == bool(res['success']) or not res['success'] or s['tight'] or not s['dc'], 'again', 'solving the result again fails')
        if res['success'] and r2['success']:
            close(r2['f'], res['f'], 1e-4 * (1 + abs(res['f'])), 'again', 'cost when the result is solved again') if s['dc'] else None
            res = r2
    if s['save']:
        back = saved(dict(res) if s['save'] == 2 else on)
        src = res if s['save'] == 2 else case
        for f, v in src['if'].items():
            w = back['if'].get(f)
            expect(same(v, w) or not np.size(v) and not np.size(w), 'save', lambda: 'if[%r] is %r after saving and loading, was %r' % (f, w, v))
        if s['save'] == 2:
            printed_ok(res, s, o)
    if 'userfcn' in res:
        res = toggle_iflims(res, 'off')
    u = res.get('userfcn') or {}
    expect(not any(len(v) for v in u.values()), 'toggle', lambda: 'callbacks left in the results: %s' % u)
    off = toggle_iflims(on, 'off')
    u = off.pop('userfcn', {})
    expect(not any(len(v) for v in u.values()), 'toggle', lambda: 'callbacks left: %s' % u)
    expect(same(before, off), 'toggle', 'turning interface limits on and off changed the case')
    ok = bool(res['success'])
    labels = base_labels(net, L) + ['dc=%d' % s['dc'], 'via=' + s['via'], 'ifs=%d' % len(s['lims']), 'ok=%d' % ok]
    P = dcopf.Problem(ppc)
    A, C = [], []
    for n, lo, hi in s['lims']:
        a, c = np.zeros(L.n), 0.0
        for m, q, g in M:
            if m == n and q in L.br:
                i = L.br.index(q)
                a = a + g * P.Bf[i]
                c += g * P.Pf[i]
        A.append(a)
        C.append(c)
        P.row(np.concatenate([a, np.zeros(P.nx - L.n)]), lo / base - c, hi / base - c, ('if', n))
    A, C = np.array(A), np.array(C)
    if not ok:
        if s['dc'] and not s['tight'] and P.feasible(.002):
            it = P.converges(sc=s['alg'] == 1, tol=1e-6)
            labels.append('failed-feasible')
            expect(it is None, 'no-convergence', 'the problem is strictly feasible and an independent interior point iteration solves it in %s steps' % it)
        return labels + ['failed-tight' if s['tight'] else 'failed']
    expect(not s['bad'], 'impossible', 'success with an interface flow no dispatch can give')
    r = res['if']
    expect(np.array_equal(r['map'], case['if']['map']) and np.array_equal(r['lims'], case['if']['lims']), 'if-data', 'the interface data come back changed')
    ft = 1e-8 if s['tight'] else 5e-6
    bus, g, br = res['bus'], res['gen'], res['branch']
    va = bus[L.rows, 8] * D2R
    F = A @ va + C          # DC model flows (pu)
    lo, hi = np.array([v[1] for v in s['lims']]) / base, np.array([v[2] for v in s['lims']]) / base
    fin = lambda v: v[np.abs(v) < 1e9]
    X = 1 + max([np.abs(res['x']).max(), acsol.slack_size(ppc, res, L, s['kind'])] + list(fin(hi - F)) + list(fin(F - lo)))
    tol = 1.5 * ft * X + 1e-7
    for i, (n, l, h) in enumerate(s['lims']):
        expect(lo[i] - tol <= F[i] <= hi[i] + tol, 'limit', lambda: 'interface %d: flow %.6g outside [%g, %g]' % (n, F[i] * base, l, h))
        P_ = sum(g_ * br[q, 13] for m, q, g_ in M if m == n and q in L.br)
        close(r['P'][i], P_, 1e-8 * (1 + base + abs(P_)), 'flow', 'flow reported for interface %d vs its branches' % n)
        if s['dc']:
            close(P_, F[i] * base, 1e-6 * (1 + base), 'dc-flow', 'sum of branch flows of interface %d' % n)
    ml, mu = (np.asarray(v, float) for v in (r['mu']['l'], r['mu']['u']))
    ct = (1e-8 if s['tight'] else 1e-6) * (1 if s['dc'] else 1e4)
    gt = (1e-8 if s['tight'] else 1e-6)
    lam = np.abs(bus[L.rows, 13:15]).max()
    comp = 3 * ct * X + (1e-2 if not s['dc'] else 1e-3 * (1 + lam) * base)
    for i, (n, l, h) in enumerate(s['lims']):
        for m, sl, nm in ((mu[i], hi[i] - F[i], 'upper'), (ml[i], F[i] - lo[i], 'lower')):
            expect(m >= -1e-9, 'mu-sign', lambda: 'interface %d %s: %r' % (n, nm, m))
            expect((m * max(sl, 0) <= comp if sl < 1e9 else m < 1e-6) or m < 1e-6, 'slack', lambda: 'interface %d %s: multiplier %.6g with slack %.6g pu' % (n, nm, m, sl))
    ex = A.T @ (mu - ml) if len(A) else np.zeros(L.n)
    if s['dc']:
        expect(P.feasible(-1e-3) is not False, 'infeasible-solved', 'success reported for an infeasible problem')
        x = P.pack(res)
        c = dcopf.check_solution(P, res, x, tol=ft, f=res['f'])
        m = P.minimum_lp()
        if m is not None:
            labels.append('lp')
            close(c, m[0], 1e-4 * (1 + abs(m[0])) + 1e-4 * P.base * 60, 'optimum', 'cost vs the minimum found by HiGHS')
        dcopf.check_multipliers(P, res, extra_va=ex)
    else:
        L, an, va, vm = acsol.feasible(ppc, res, tol, s['kind'])
        c = acsol.cost(ppc, res, L)
        sl = acsol.max_slope(ppc, res, L)
        close(res['f'], c, 1e-5 * (1 + abs(c)) + (1e-5 + tol) * sl * base * 3, 'cost', 'objective vs cost of dispatch')
        acsol.kkt(ppc, res, L, an, va, vm, gt, comp, s['kind'], extra=max(mu.max(), ml.max(), lam * base), extra_va=ex,
                  tol_va=acsol.LOST * np.abs(A).sum(0) + 1e-9 * np.abs(A).T @ (mu + ml))
    if (np.maximum(mu, ml) > 1e-2).any():
        labels.append('nontrivial')
        if any(k == 0 for n, k, g_ in M if (np.maximum(mu, ml) > 1e-2)[[v[0] == n for v in s['lims']]].any()):
            labels.append('first-branch-binds')
    return labels


def printed_ok(res, s, o):
    txt = printed(res, o, OUT_ALL=1)
    i = txt.index('Interface Flow Limits')
    rows = [l.split() for l in txt[i:].split('\n')[5:5 + len(s['lims'])]]
    if max(res['if']['mu'][k].max() for k in 'lu') > 1e6 or np.abs(s['lims']).max() > 1e6:
        return      # (columns run together)
    for row, (n, lo, hi), P in zip(rows, s['lims'], res['if']['P']):
        expect(len(row) == 6 and int(row[0]) == n, 'print', lambda: 'report row %s for interface %d' % (row, n))
        for v, w in zip(row[2:5], (lo, P, hi)):
            expect(v == '%.2f' % w, 'print', lambda: 'report row %s for interface %d: limits %g, %g, flow %r' % (row, n, lo, hi, P))
    expect(len(rows) == len(s['lims']), 'print', lambda: 'report rows %s' % rows)
    for k, row in enumerate(rows):
        for v, m in ((row[1], res['if']['mu']['l'][k]), (row[5], res['if']['mu']['u'][k])):
            if abs(m - 1e-6) > 1e-9:
                expect(v == ('-' if m < 1e-6 else '%.3f' % m), 'print', lambda: 'report row %s: multiplier %r of interface %d' % (row, m, k))


SUBS = [Sub('dc', gen.spec_strategy(make, 'dc'), check, 500, 9000),
        Sub('ac', gen.spec_strategy(make, 'ac'), check, 200, 5000)]
