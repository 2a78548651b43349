"""P14  A DC optimal power flow returns the optimum of the DC problem, with its prices."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, dcopf
from vlib.util import opts, close, same, snapshot, base_labels

ID = 'P14'
RULE = ('random networks (shifters, taps, several reference buses, out-of-service and isolated elements, dispatchable loads, fixed units) with limits '
        'for which an operating point is known to be feasible, or made infeasible; polynomial and convex piecewise linear costs; solved by rundcopf, runopf '
        'or dcopf. Oracle: an independent LP/QP (HiGHS), its duality gap and the optimality conditions of prices. '
        'Non-trivial: solved, and at least one unit, branch or angle limit binding')


TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-8, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)


def make(d, mode):
    net = gen.draw_net(d, nb_max=8, stress=1.0)
    dcopf.add_dcopf(d, net)
    ppc = net['ppc']
    s = {'net': net, 'via': d.pick(['rundcopf', 'rundcopf', 'dcopf', 'opf', 'runopf', 'arrays']), 'alg': d.pick([0, 200, 200, 250]),
         'tight': d.chance(.6), 'ign': 1 if d.chance(.1) else 0, 'cols': d.pick([13, 13, 17, 21])}
    if mode == 'bad':
        k = d.pick(['load', 'load', 'pmin', 'rates', 'angles', 'load', 'pmin', 'angles', 'cubic'])
        if k == 'load':
            f = d.f(1.5, 5)
            for r in ppc['bus']:
                r[2] = abs(r[2]) * f
        elif k == 'pmin':
            for r in ppc['gen']:
                if r[8] > 0:
                    r[9] = r[8] * d.f(.6, 1)
        elif k == 'cubic':
            on = [j for j, r in enumerate(ppc['gen']) if r[7] > 0 and any(b[0] == r[0] and b[1] != 4 for b in ppc['bus'])]
            if on:
                s['cubic'] = d.pick(on)
                r = ppc['gencost'][s['cubic']]
                r[:8] = [2, 0, 0, 4, 1e-5, .01, 20.0, 5.0]
        elif k == 'rates':
            for r in ppc['branch']:
                if r[5]:
                    r[5] = r[5] * d.f(.2, 1, 2)
        else:
            for r in ppc['branch']:
                if d.chance(.5):
                    r[11] = d.f(-2, 3)
                    r[12] = r[11] + d.f(.2, 3)
    return s


def run(s, case):
    from pypower.api import rundcopf, runopf, opf, dcopf as dco
    via = s['via']
    k = dict(TIGHT if s['tight'] else {}, OPF_ALG_DC=s['alg'], OPF_IGNORE_ANG_LIM=s['ign'])
    if via == 'rundcopf':
        return rundcopf(case, opts(**k))
    if via == 'dcopf':
        return dco(case, opts(**k))
    o = opts(PF_DC=1, **k)
    if via == 'opf':
        return opf(case, o)
    if via == 'arrays':
        return opf(case['baseMVA'], case['bus'], case['gen'], case['branch'], np.array([]), case['gencost'], o)
    return runopf(case, o)


def check(s):
    net = s['net']
    ppc = net['ppc']
    case = gen.arr(ppc)
    k = s['cols'] - 13
    case['branch'] = np.hstack([case['branch'], np.full((len(case['branch']), k), 4.25)])
    if s['cols'] == 21:     # multipliers of an earlier solution
        case['bus'] = np.hstack([case['bus'], np.full((len(case['bus']), 4), 3.5)])
        case['gen'] = np.hstack([case['gen'], np.full((len(case['gen']), 25 - case['gen'].shape[1]), 2.5)])
    P = dcopf.Problem(ppc, s['ign'])
    L = P.L
    before = snapshot(case)
    if 'cubic' in s:
        try:
            res = run(s, case)
        except ValueError:
            return ['cubic', 'nontrivial']
        raise Violation('cubic', 'a cubic cost was accepted by the DC OPF (cost %r)' % res['f'])
    res = run(s, case)
    expect(same(before, case), 'input-modified', 'the case passed in was modified')
    ok = bool(res['success'])
    labels = base_labels(net, L) + ['via=' + s['via'], 'alg=%d' % s['alg'], 'ok=%d' % ok]
    if not ok:
        if not s['tight'] and P.feasible(.002):
            it = P.converges(sc=s['alg'] == 250, tol=1e-6)
            labels.append('failed-feasible')
            expect(it is None, 'no-convergence', 'the problem is strictly feasible and an independent interior point iteration solves it in %s steps' % it)
        return labels + ['failed-tight' if s['tight'] else 'failed']
    expect(P.feasible(-1e-3) is not False, 'infeasible-solved', 'success reported for an infeasible problem')
    x = P.pack(res)
    c = dcopf.check_solution(P, res, x, tol=1e-8 if s['tight'] else 5e-6, f=res['f'])
    m = P.minimum_lp()
    if m is not None:
        labels.append('lp')
        close(c, m[0], 1e-4 * (1 + abs(m[0])) + 1e-4 * P.base * 60, 'optimum', 'cost vs the minimum found by HiGHS')
    dcopf.check_multipliers(P, res)
    bus, g, br = res['bus'], res['gen'], res['branch']
    expect(not bus[L.rows, 14:17].any() and not g[L.g, 23:25].any(), 'stale-mu', lambda: 'multipliers of voltages and reactive power of a DC solution: %s, %s' % (bus[L.rows, 14:17], g[L.g, 23:25]))
    fl = (P.Bf @ x[:P.n] + P.Pf) * P.base
    sc = 1 + np.abs(fl).max() if len(fl) else 1
    if L.br:
        close(br[L.br, 13], fl, 1e-7 * sc, 'flows', 'branch flows vs angles')
        close(br[L.br, 15], -fl, 1e-7 * sc, 'flows', 'to-end flows vs angles')
        close(br[L.br][:, [14, 16]], np.zeros((len(L.br), 2)), 0, 'qflow', 'Q flows')
    close(br[L.brout][:, 13:21], np.zeros((len(L.brout), 8)), 0, 'off-branch', 'results of out-of-service branches')
    close(g[L.gout][:, [1, 2, 21, 22]], np.zeros((len(L.gout), 4)), 0, 'off-gen', 'results of out-of-service units')
    # data columns
    expect(np.array_equal(bus[:, :7], case['bus'][:, :7]) and np.array_equal(bus[:, 9:13], case['bus'][:, 9:13]), 'bus-data')
    expect(np.array_equal(g[:, [0, 3, 4, 6, 7, 8, 9]], case['gen'][:, [0, 3, 4, 6, 7, 8, 9]]), 'gen-data')
    expect(np.array_equal(br[:, :13], case['branch'][:, :13]), 'branch-data')
    bind = [t for t in (g[L.g][:, 21:23].ravel(), br[:, 17:19].ravel(), br[:, 19:21].ravel()) if t.size and t.max() > 1e-3]
    if bind:
        labels.append('nontrivial')
    for nm, t in (('pmax', g[L.g, 21]), ('pmin', g[L.g, 22]), ('flow', br[:, 17]), ('flow', br[:, 18]), ('ang', br[:, 19]), ('ang', br[:, 20])):
        if t.size and t.max() > 1e-3:
            labels.append('bind=' + nm)
    return labels


SUBS = [Sub('solve', gen.spec_strategy(make, 'good'), check, 900, 16000),
        Sub('limits', gen.spec_strategy(make, 'bad'), check, 500, 9000)]
