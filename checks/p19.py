"""P19  Reserve co-optimisation meets every zone's requirement at least cost."""
import math
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, acsol, dcopf
from vlib.util import opts, close, same, snapshot, base_labels, saved, printed

ID = 'P19'
RULE = ('random OPF cases (AC and DC) with 1-4 overlapping reserve zones over random units (also out-of-service units, dispatchable loads and units '
        'at isolated buses), ramp limits, quantities and costs given per unit or per member, and requirements which are feasible, tight or not; '
        'oracle: the constraints and cost recomputed from the tables, the optimality conditions of the reserve prices, and for DC an independent LP/QP. '
        'Non-trivial: solved with a binding requirement')
TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-8, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)


def make(d, mode):
    net = gen.draw_net(d, nb_max=6, stress=.7)
    if mode == 'dc':
        dcopf.add_dcopf(d, net)
    else:
        acopf.add_opf(d, net, pqcap=.1, disp=.3, qcost=.2)
    ppc = net['ppc']
    L = ref.Live(ppc)
    ng = len(ppc['gen'])
    nz = d.pick([1, 1, 2, 2, 3, 4])
    e = d.cells(nz * ng + 8 * ng + 4 * nz + 8)
    zones = [[1 if e.chance(.6) else 0 for _ in range(ng)] for _ in range(nz)]
    if not e.chance(.1):      # a unit with no range has no interior left once its reserve is limited by its capacity
        for z in zones:
            for k, r in enumerate(ppc['gen']):
                if r[8] - r[9] < 1e-6:
                    z[k] = 0
    form = e.pick(['all', 'members'])
    cost = [e.f(0, 9, 2) if e.chance(.85) else 0.0 for _ in range(ng)]
    qty = [e.f(0, 60, 2) if e.chance(.9) else 0.0 for _ in range(ng)] if e.chance(.65) else None
    R0 = np.zeros(ng)
    for k in range(ng):
        r = ppc['gen'][k]
        if e.chance(.5):
            r[17] = e.f(.5, 60, 2)
        if k in L.g:
            m = r[8] - r[1]
            if r[17]:
                m = min(m, r[17])
            if qty is not None:
                m = min(m, qty[k])
            R0[k] = max(m, 0) * e.f(.3, 1, 2)
    bad = e.chance(.06)
    req = []
    for z in zones:
        t = float(sum(R0[k] for k in range(ng) if z[k]))
        m = e.pick(['zero', 'part', 'part', 'most', 'most'])
        v = 0.0 if m == 'zero' else t * (e.f(.2, .8, 3) if m == 'part' else e.f(.8, .99, 3))
        req.append(round(v, 4))
    if bad:
        i = e.i_(0, nz - 1)
        req[i] = round(sum(max(ppc['gen'][k][8], 0) - min(ppc['gen'][k][9], 0) for k in L.g) * 1.2 + 10, 3)
    return {'net': net, 'dc': mode == 'dc', 'zones': zones, 'req': req, 'cost': cost, 'qty': qty, 'form': form, 'bad': bad,
            'zfloat': d.chance(.5), 'via': d.pick(['runopf_w_res', 'runopf_w_res', 'toggle', 'toggle-opf']), 'alg': d.pick([0, 0, 1]), 'kind': d.pick([0, 0, 1, 2]), 'save': d.pick([0, 0, 0, 1, 2]),
            'tight': d.chance(.7)}


def check(s):
    from pypower.runopf_w_res import runopf_w_res
    from pypower.toggle_reserves import toggle_reserves
    from pypower.api import runopf, opf
    net = s['net']
    ppc = net['ppc']
    case = gen.arr(ppc)
    ng = len(ppc['gen'])
    L = ref.Live(ppc)
    Z = np.array(s['zones'], float if s['zfloat'] else int)
    mem = [k for k in range(ng) if Z[:, k].any()]
    cost, qty = np.array(s['cost'], float), None if s['qty'] is None else np.array(s['qty'], float)
    pick = mem if s['form'] == 'members' else list(range(ng))
    case['reserves'] = {'zones': Z, 'req': np.array(s['req'], float), 'cost': cost[pick]}
    if qty is not None:
        case['reserves']['qty'] = qty[pick]
    before = snapshot(case)
    k = dict(TIGHT if s['tight'] else {}, OPF_FLOW_LIM=s['kind'])
    if s['dc']:
        k.update(PF_DC=1, OPF_ALG_DC=250 if s['alg'] else 0)
    else:
        k.update(OPF_ALG=565 if s['alg'] else 0)
    o = opts(**k)
    if s['via'] == 'runopf_w_res':
        res = runopf_w_res(case, o)
        expect(same(before, case), 'input-modified', 'the case passed in was modified')
    else:
        on = toggle_reserves(case, 'on')
        res = runopf(on, o) if s['via'] == 'toggle' else opf(on, o)
        if 'userfcn' in res:
            res = toggle_reserves(res, 'off')
        off = toggle_reserves(on, 'off')
        u = off.get('userfcn') or {}
        expect(not any(len(v) for v in u.values()), 'toggle', lambda: 'callbacks left: %s' % u)
        off = {a: b for a, b in off.items() if a != 'userfcn'}
        expect(same(before, off), 'toggle', 'turning reserves on and off changed the case')
    if s['save']:       # the data survive a case file; the report gives the totals
        full = toggle_reserves(dict(res, userfcn={}) if s['save'] == 2 else dict(case), 'on')
        back = saved(full)
        for f, v in full['reserves'].items():
            if f in ('zones', 'req', 'cost', 'qty', 'R', 'Rmin', 'Rmax', 'mu', 'prc', 'totalcost'):
                w = back['reserves'].get(f)
                expect(same(v, w) or (f in ('totalcost',) and v == w), 'save', lambda: 'reserves[%r] is %r after saving and loading, was %r' % (f, w, v))
        if s['save'] == 2:
            txt = printed(full, o, OUT_ALL=1)
            import re
            m = re.search(r'Total: *(-?[\d.]+) +Total Cost: \$(-?[\d.]+)', txt)
            expect(m, 'print', 'no reserve totals in the report')
            close(float(m.group(1)), float(np.sum(res['reserves']['R'])), .006, 'print', 'total reserve in the report')
            close(float(m.group(2)), float(res['reserves']['totalcost']), .006, 'print', 'reserve cost in the report')
            printed_ok(full, txt)
    u = res.get('userfcn') or {}
    expect(not any(len(v) for v in u.values()), 'toggle', lambda: 'callbacks left in the results: %s' % u)
    ok = bool(res['success'])
    on = [q for q in mem if q in L.g]
    base = L.base
    lim = {}
    for q in on:
        m = float('inf')
        if L.gen[q, 17]:
            m = L.gen[q, 17]
        if qty is not None:
            m = min(m, qty[q])
        lim[q] = m
    labels = base_labels(net, L) + ['dc=%d' % s['dc'], 'via=' + s['via'], 'form=' + s['form'], 'zones=%d' % len(Z), 'ok=%d' % ok]
    if s['dc']:
        P = dcopf.Problem(ppc)
        ix = P.add_vars(np.zeros(len(on)), np.array([lim[q] for q in on]) / base, cost[on] * base)
        for j, q in enumerate(on):
            a = np.zeros(P.nx)
            a[P.n + L.g.index(q)] = a[ix[j]] = 1
            P.row(a, -np.inf, L.gen[q, 8] / base, ('P+R', q))
        for z in range(len(Z)):
            a = np.zeros(P.nx)
            for j, q in enumerate(on):
                if Z[z, q]:
                    a[ix[j]] = 1
            P.row(a, s['req'][z] / base, np.inf, ('req', z))
    if not ok:
        if s['dc'] and not s['tight'] and P.feasible(.002):
            it = P.converges(sc=s['alg'] == 1, tol=1e-6)
            labels.append('failed-feasible')
            expect(it is None, 'no-convergence', 'the problem is strictly feasible and an independent interior point iteration solves it in %s steps' % it)
        return labels + ['failed-tight' if s['tight'] else 'failed']
    expect(not (s['bad'] and any(s['req'][z] > sum(L.gen[q, 8] - L.gen[q, 9] for q in on if Z[z, q]) + 1 for z in range(len(Z)))), 'impossible', 'success with a requirement no dispatch can meet')
    r = res['reserves']
    R = np.asarray(r['R'], float)
    g = res['gen']
    expect(R.shape == (ng,), 'R', 'shape of R is %s' % (R.shape,))
    ft = 1e-8 if s['tight'] else 5e-6
    sl = [(L.gen[q, 8] - g[q, 1] - R[q]) / base for q in on] + [(sum(R[q] for q in on if z[q]) - v) / base for z, v in zip(Z, s['req'])] + [(lim[q] - R[q]) / base for q in on if lim[q] < np.inf]
    X = 1 + max(np.abs(res['x']).max(), acsol.slack_size(ppc, res, L, s['kind']), R.max() / base, *sl)
    tol = 1.5 * ft * X + 1e-7
    mt = tol * base
    for q in range(ng):
        if q not in on:
            expect(R[q] == 0 and r['Rmin'][q] == 0 and r['Rmax'][q] == 0 and r['prc'][q] * (q in L.g) == 0, 'no-reserve',
                   lambda: 'unit %d, which cannot provide reserves, has R %r in [%r, %r] at %r' % (q, R[q], r['Rmin'][q], r['Rmax'][q], r['prc'][q]))
            continue
        expect(r['Rmin'][q] == 0 and (r['Rmax'][q] == lim[q] or abs(r['Rmax'][q] - lim[q]) < 1e-9 * (1 + lim[q])), 'R-limits',
               lambda: 'unit %d: limits reported [%r, %r], given [0, %r]' % (q, r['Rmin'][q], r['Rmax'][q], lim[q]))
        expect(-mt <= R[q] <= lim[q] + mt, 'R-limit', lambda: 'unit %d: reserve %.6g outside [0, %g]' % (q, R[q], lim[q]))
        expect(g[q, 1] + R[q] <= L.gen[q, 8] + mt, 'capacity', lambda: 'unit %d: output %.6g + reserve %.6g over %g' % (q, g[q, 1], R[q], L.gen[q, 8]))
    for z in range(len(Z)):
        expect(sum(R[q] for q in on if Z[z, q]) >= s['req'][z] - mt, 'requirement', lambda: 'zone %d: %.6g of %g' % (z, sum(R[q] for q in on if Z[z, q]), s['req'][z]))
    rc = float(cost @ R)
    close(r['totalcost'], rc, 1e-7 * (1 + abs(rc)), 'totalcost', 'total cost of reserves')
    # case data come back as given
    for f in ('zones', 'req', 'cost', 'qty'):
        if f in case['reserves']:
            expect(np.array_equal(np.asarray(r[f]), case['reserves'][f]), 'reserve-data', lambda: '%s: %s, given %s' % (f, r[f], case['reserves'][f]))
    # prices (they are not determined where a zone has nothing to spare even with the whole dispatch devoted to it)
    room = {q: max(min(lim[q], L.gen[q, 8] - min(L.gen[q, 9], L.gen[q, 8])), 0) for q in on}
    if any(L.gen[q, 8] - L.gen[q, 9] < 1e-6 for q in on) or any(sum(room[q] for q in on if Z[z, q]) <= s['req'][z] + .01 for z in range(len(Z))):
        return labels + ['no-interior']
    mz = np.asarray(res['lin']['mu']['l']['Rreq'], float).reshape(-1) / base
    ml, mu, mp, prc = (np.asarray(v, float) for v in (r['mu']['l'], r['mu']['u'], r['mu']['Pmax'], r['prc']))
    ct = (1e-8 if s['tight'] else 1e-6) * (1 if s['dc'] else 1e4)
    gt = (1e-8 if s['tight'] else 1e-6)
    lam = np.abs(res['bus'][L.rows, 13:15]).max()
    M = max(lam, mz.max(), ml.max(), mu.max(), mp.max(), g[L.g, 21:25].max()) * base
    lost = (acsol.LOST if not s['dc'] else 2e-5)
    e = (2 * gt * ((1 if s['dc'] else 1e4) + M * (1 + np.abs(np.asarray(res['x'])).max() if s['dc'] else 1)) + 4 * lost) / base + 1e-9
    if s['dc']:
        e += 1e-4 * (1 + lam)
    comp = 3 * ct * X + (1e-2 if not s['dc'] else 1e-3 * (1 + lam))
    for q in range(ng):
        if q not in on:
            expect(ml[q] == 0 and mu[q] == 0 and mp[q] == 0, 'mu-off', lambda: 'unit %d has reserve multipliers' % q)
            continue
        close(prc[q], sum(mz[z] for z in range(len(Z)) if Z[z, q]), 1e-9 * (1 + prc[q]), 'price', 'reserve price of unit %d vs its zones' % q)
        v = cost[q] - prc[q] + mu[q] - ml[q] + mp[q]
        expect(abs(v) <= e, 'reserve-kkt', lambda: 'unit %d: cost %g - price %.6g + mu_u %.6g - mu_l %.6g + mu_Pmax %.6g = %.3g (tolerance %.2g)' % (q, cost[q], prc[q], mu[q], ml[q], mp[q], v, e))
        for m, sl, nm in ((mu[q], lim[q] - R[q], 'Rmax'), (ml[q], R[q], 'Rmin'), (mp[q], L.gen[q, 8] - g[q, 1] - R[q], 'P+R')):
            expect(m >= -1e-9, 'mu-sign', lambda: '%s of unit %d: %r' % (nm, q, m))
            expect(m * max(sl, 0) <= comp or m < 1e-6, 'reserve-slack', lambda: 'unit %d %s: multiplier %.6g with slack %.6g' % (q, nm, m, sl))
    for z in range(len(Z)):
        sl = sum(R[q] for q in on if Z[z, q]) - s['req'][z]
        expect(mz[z] >= -1e-9, 'mu-sign', lambda: 'zone %d: %r' % (z, mz[z]))
        expect(mz[z] * max(sl, 0) <= comp or mz[z] < 1e-6, 'reserve-slack', lambda: 'zone %d: price %.6g with %.6g MW to spare' % (z, mz[z], sl))
    if s['dc']:
        x = P.pack(res, R[on] / base)
        expect(P.feasible(-1e-3) is not False, 'infeasible-solved', 'success reported for an infeasible problem')
        c = dcopf.check_solution(P, res, x, tol=ft, f=res['f'])
        m = P.minimum_lp()
        if m is not None:
            labels.append('lp')
            close(c, m[0], 1e-4 * (1 + abs(m[0])) + 1e-4 * P.base * 60, 'optimum', 'cost vs the minimum found by HiGHS')
        dcopf.check_multipliers(P, res, extra_pg=[mp[q] for q in L.g])
    else:
        L, an, va, vm = acsol.feasible(ppc, res, tol, s['kind'])
        c = acsol.cost(ppc, res, L) + rc
        sl = acsol.max_slope(ppc, res, L)
        close(res['f'], c, 1e-5 * (1 + abs(c)) + (1e-5 + tol) * sl * base * 3, 'cost', 'objective vs cost of dispatch and reserves')
        acsol.kkt(ppc, res, L, an, va, vm, gt, comp, s['kind'], extra=M, extra_p={q: mp[q] for q in on}, lost=1)
    if (mz > 1e-4).any():
        labels.append('nontrivial')
    for nm, v in (('Rmax', mu), ('Rmin', ml), ('P+R', mp)):
        if (v > 1e-3).any():
            labels.append('bind=' + nm)
    return labels

def printed_ok(full, txt):
    """The tables of reserves in the report against the result."""
    r, g = full['reserves'], full['gen']
    R, Z = np.asarray(r['R'], float), np.asarray(r['zones'])
    mu = [np.asarray(r['mu'][k], float) for k in ('l', 'u', 'Pmax')]
    mz = np.asarray(full['lin']['mu']['l']['Rreq'], float).reshape(-1) / full['baseMVA']
    if max(np.abs(R).max(), np.abs(g[:, 0]).max(), max(m.max() for m in mu), np.abs(r['prc']).max(), mz.max(), np.max(r['Rmax'])) > 1e5:
        return      # (columns run together)
    units = [q for q in range(len(g)) if Z[:, q].any()]

    def table(title, rule=0):
        ls = txt[txt.index(title):].split('\n')
        st = [j for j, l in enumerate(ls) if l.startswith('----')][rule] + 1
        out = []
        for l in ls[st:]:
            if not l.strip() or l.strip()[0] == '-':
                break
            out.append(l.replace(',', ' ').split())
        return out
    num = lambda v, on=True: ('-' if not on or abs(v) < 1e-6 else '%.2f' % v)
    clear = lambda v: abs(abs(v) - 1e-6) > 1e-9
    rows = table('|     Reserves  ')
    expect([x[0] for x in rows] == ['%d' % q for q in units], 'print', lambda: 'rows of reserves %s for units %s' % (rows, units))
    for x, q in zip(rows, units):
        want = ['%d' % q, '%d' % g[q, 0], '%d' % g[q, 7], num(R[q], g[q, 7] > 0), '%.2f' % r['prc'][q]] + ['%d' % z for z in range(len(Z)) if Z[z, q]]
        if clear(R[q]):
            expect([v.replace('-0.00', '0.00') for v in x] == [v.replace('-0.00', '0.00') for v in want], 'print', lambda: 'row of reserves %s, expected %s' % (x, want))
    rows = table('\nZone  Reserves   Price')
    want = [['%d' % z, R[Z[z] != 0].sum(), mz[z]] for z in range(len(Z))]
    expect(len(rows) == len(Z) and all(x[0] == w[0] and abs(float(x[1]) - w[1]) < .006 and abs(float(x[2]) - w[2]) < .006 for x, w in zip(rows, want)), 'print',
           lambda: 'rows of zones %s, expected %s' % (rows, want))
    rows = table('|     Reserve Limits')
    expect([x[0] for x in rows] == ['%d' % q for q in units], 'print', lambda: 'rows of limits %s for units %s' % (rows, units))
    for x, q in zip(rows, units):
        on = g[q, 7] > 0
        want = ['%d' % q, '%d' % g[q, 0], '%d' % g[q, 7], num(max(mu[0][q], 0), on), '%.2f' % r['Rmin'][q], num(R[q], on), '%.2f' % r['Rmax'][q], num(max(mu[1][q], 0), on), num(max(mu[2][q], 0), on)]
        if all(clear(v) for v in (R[q], mu[0][q], mu[1][q], mu[2][q])):
            expect(x == want, 'print', lambda: 'row of limits %s, expected %s' % (x, want))


SUBS = [Sub('dc', gen.spec_strategy(make, 'dc'), check, 500, 9000),
        Sub('ac', gen.spec_strategy(make, 'ac'), check, 200, 5000)]
