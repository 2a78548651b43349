"""P23  Unit decommitment: feasible, cheaper, locally optimal, and nothing else changed."""
import copy
import io
import contextlib
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, acsol, dcopf
from vlib.util import opts, close, same, snapshot, base_labels, saved

ID = 'P23'
RULE = ('random DC and AC OPF cases with minimum outputs and no-load costs (several cheap and dear units, dispatchable loads, units out of service, cases whose '
        'minimum outputs exceed the load, infeasible cases). Oracle: feasibility and optimality of the returned commitment in an independent model, the cost of every '
        'neighbouring commitment, and an independent run of the documented greedy search. Non-trivial: a unit was shut down')
TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-8, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)


def add_noload(r, c0):
    n = int(r[3])
    if r[0] == 2:
        r[3 + n] = round(r[3 + n] + c0, 3)
    else:
        for i in range(n):
            r[5 + 2 * i] = round(r[5 + 2 * i] + c0, 3)


def make(d, mode):
    ac = mode == 'ac'
    net = gen.draw_net(d, nb_max=4 if ac else 6, stress=.6, force=['multigen'] if d.chance(.7) else [], forbid=['multiref'])
    if ac:
        acopf.add_opf(d, net, tight=.1, pqcap=.05, disp=.3, qcost=.15, rates=.25, fixed=0, angle=.1)
    else:
        dcopf.add_dcopf(d, net, tight=.1, rates=.3, fixed=0, angle=.15, disp=.35)
    ppc = net['ppc']
    base = ppc['baseMVA']
    L = ref.Live(ppc)
    e = d.cells(12 * len(ppc['gen']) + 6)
    for k, r in enumerate(ppc['gen']):
        c = ppc['gencost'][k]
        if r[8] == 0 and r[9] < 0:
            continue
        p = r[1]
        if p > 1 and e.chance(.75):
            r[9] = round(p * e.f(.1, .98, 3), 3)
            if r[9] >= r[8]:
                r[8] = round(r[9] + .1 * base, 3)
            if e.chance(.7):
                add_noload(c, round(e.f(0, 30, 2) * base, 1))
        if e.chance(.6):
            r[8] = round(r[8] + e.f(.2, 2, 3) * base, 3)
    over = d.chance(.2)
    if over:           # minimum outputs beyond the load
        for r in ppc['gen']:
            if r[8] > 0 and e.chance(.8):
                r[9] = round(r[8] * e.f(.4, .9, 3), 3)
    if d.chance(.15):   # alike units
        on = [k for k in L.g if ppc['gen'][k][9] > 0]
        if len(on) > 1:
            ppc['gencost'][on[0]] = list(ppc['gencost'][on[1]])
            for j in (8, 9):
                ppc['gen'][on[0]][j] = ppc['gen'][on[1]][j]
    return {'net': net, 'ac': ac, 'over': over, 'tight': d.chance(.6), 'via': d.pick(['runuopf', 'runuopf', 'uopf', 'arrays'] + ([] if ac else ['runduopf'] * 2)),
            'stale': d.chance(.2), 'files': d.chance(.1)}


def options(s):
    return opts(**dict(TIGHT if s['tight'] else {}, PF_DC=not s['ac']))


def solve(s, case, on):
    """OPF of a commitment. Memoised."""
    from pypower.api import opf
    key = tuple(on)
    memo = s['memo']
    if key not in memo:
        c = copy.deepcopy(case)
        for k in range(len(c['gen'])):
            if c['gen'][k, 7] > 0 and k in s['live'] and k not in on:
                c['gen'][k, [1, 2, 7]] = 0
        try:
            r = opf(c, options(s))
            memo[key] = (bool(r['success']), float(r['f']), r['gen'][:, 22].copy())
        except np.linalg.LinAlgError:
            memo[key] = (False, 0.0, np.zeros(len(c['gen'])))
    return memo[key]


def pmincost(c, p):
    return acopf.gencost_value(c, p)


def model(s, case, live, eps):
    """The documented search. Returns (commitment, cost or None, tie?) for the first stage onwards."""
    g = case['gen']
    on = list(live)
    load = lambda k: g[k, 9] < 0 and g[k, 8] == 0
    cap = case['bus'][case['bus'][:, 1] != 4, 2].sum() - sum(g[k, 9] for k in on if load(k))
    tie = False
    while True:
        un = [k for k in on if not load(k)]
        tot = sum(g[k, 9] for k in un)
        if abs(tot - cap) < 1e-6 * (1 + abs(cap)):
            tie = True
        if tot <= cap:
            break
        un = [k for k in un if g[k, 9] > 0]
        if not un or len(on) == 1:
            break
        a = [pmincost(case['gencost'][k], g[k, 9]) / g[k, 9] for k in un]
        o = sorted(range(len(un)), key=lambda i: -a[i])
        if len(o) > 1 and a[o[0]] - a[o[1]] <= 1e-9 * (1 + abs(a[o[0]])):
            tie = True
        on = [k for k in on if k != un[o[0]]]
    start = list(on)
    ok, f, mu = solve(s, case, on)
    while True:
        cand = [k for k in on if mu[k] > 0 and g[k, 9] > 0] if len(on) > 1 else []
        best = []
        for k in cand:
            ok1, f1, mu1 = solve(s, case, [j for j in on if j != k])
            if ok1:
                best.append((f1, k, mu1))
        best.sort(key=lambda t: t[:2])
        if best and abs(best[0][0] - f) <= eps * (1 + abs(f)):
            tie = True
        if len(best) > 1 and best[1][0] - best[0][0] <= eps * (1 + abs(f)) and best[0][0] < f:
            tie = True
        if any(0 < mu[k] < 1e-3 for k in cand):
            tie = True
        if not best or best[0][0] >= f:
            return on, (f if ok else None), tie, start
        f, k, mu = best[0]
        ok = True
        on = [j for j in on if j != k]


def check(s):
    from pypower.api import runuopf, uopf, runduopf
    net = s['net']
    ppc = net['ppc']
    case = gen.arr(ppc)
    if s['stale']:
        # a case with result columns of an earlier run
        g = np.hstack([case['gen'], np.zeros((len(case['gen']), 4))])
        g[:, 22] = 7.5
        case['gen'] = g
    L = ref.Live(ppc)
    base = L.base
    s['memo'], s['live'] = {}, list(L.g)
    eps = 1e-6 if s['tight'] else 1e-4
    labels = base_labels(net, L) + ['via=' + s['via'], 'ac=%d' % s['ac'], 'over=%d' % s['over']]
    m = model(s, case, L.g, eps)
    won, wf, tie, start = m
    before, o = snapshot(case), options(s)
    ob = dict(o)
    if s['via'] == 'arrays':
        res = uopf(case['baseMVA'], case['bus'], case['gen'], case['branch'], np.array([]), case['gencost'], o)
    elif s['via'] == 'uopf':
        res = uopf(case, o)
    elif s['via'] == 'runduopf':
        res = runduopf(case, dict(o, PF_DC=False))
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            res = runuopf(case, o)
    expect(same(before, case), 'input-modified', 'the case passed in was modified')
    expect(same(ob, dict(o)), 'options-modified', 'the options passed in were modified')
    g = res['gen']
    now = [k for k in L.g if g[k, 7] > 0]
    was = list(L.g)
    off = [k for k in was if k not in now]
    labels += ['off=%d' % len(off), 'tie=%d' % tie, 'ok=%d' % bool(res['success'])]
    expect(all(k in was for k in now), 'started', 'units %s were started' % [k for k in now if k not in was])
    for k in off:
        r = case['gen'][k]
        expect(not (r[9] < 0 and r[8] == 0) and r[9] > 0, 'who', 'unit %d with limits [%g, %g] was shut down' % (k, r[9], r[8]))
        expect(bool(np.all(g[k, [1, 2]] == 0)), 'off-output', 'unit %d is shut down but gives %r' % (k, list(g[k, 1:3])))
    expect(np.array_equal(g[:, [0, 3, 4, 6, 8, 9]], case['gen'][:, [0, 3, 4, 6, 8, 9]]), 'data', 'unit data come back changed')
    expect(np.array_equal(res['bus'][:, [0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12]], case['bus'][:, [0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12]]), 'data', 'bus data come back changed')
    expect(np.array_equal(res['branch'][:, :13], case['branch'][:, :13]), 'data', 'branch data come back changed')
    expect(np.array_equal(res['gencost'], case['gencost']), 'data', 'costs come back changed')
    other = [k for k in range(len(g)) if k not in was]
    expect(np.array_equal(g[other, 7], case['gen'][other, 7]), 'data', 'status of units out of service changed')
    f = float(res['f'])
    tol = lambda x: (1e-6 if s['tight'] else 1e-4) * 3 * (1 + abs(x)) + (1e-5 if s['tight'] else 1e-3) * base * 60
    if not res['success']:
        if wf is not None and not tie:
            raise Violation('failed', 'fails, although commitment %s solves' % (won,))
        return labels + ['failed']
    # the result is a solution of the case with these units
    q = copy.deepcopy(ppc)
    for k in off:
        q['gen'][k][7] = 0
    M = ref.Live(q)
    r3 = [i for i in L.rows if int(L.bus[i, 1]) == 3][0]
    if not M.gens_at[L.rows.index(r3)]:     # (another bus is the reference then)
        res = dict(res, bus=res['bus'].copy())
        res['bus'][L.rows, 8] += L.bus[r3, 8] - res['bus'][r3, 8]
        labels.append('new-ref')
    if s['ac']:
        X = 1 + max(np.abs(res['x']).max(), acsol.slack_size(q, res, M, 0))
        acsol.feasible(q, res, 1.5 * (1e-8 if s['tight'] else 5e-6) * X + 1e-7, 0)
        c = acsol.cost(q, res, M)
        close(f, c, 1e-4 * (1 + abs(c)) * (1 if not s['tight'] else .01) + 1e-3 * base, 'cost', 'objective vs cost of the dispatch')
    else:
        P = dcopf.Problem(q)
        x = P.pack(res)
        dcopf.check_solution(P, res, x, tol=1e-8 if s['tight'] else 5e-6, f=f)
    # not worse than before shutting down
    ok0, f0, _ = solve(s, case, start)
    if ok0 and not (tie and len(start) < len(L.g)):
        expect(f <= f0 + tol(f0), 'worse', 'cost %.8g, with all units on %.8g' % (f, f0))
    # no single further step is better
    for k in now:
        if g[k, 9] > 0 and g[k, 22] > 1e-2 and len(M.g) > 1:
            ok1, f1, _ = solve(s, case, [j for j in now if j != k])
            expect(not ok1 or f1 >= f - tol(f), 'not-optimal', lambda: 'cost %.8g; shutting down unit %d as well gives %.8g' % (f, k, f1))
    if not tie:
        expect(now == won, 'search', 'units on: %s (cost %.8g); the documented search gives %s (cost %r)' % (now, f, won, wf))
        close(f, wf, tol(wf), 'search', 'cost')
    if s['files']:
        files(s, case, res, o)
    return labels + (['nontrivial'] if off else []) + (['stages=%d' % len(off)] if off else [])


def files(s, case, res, o):
    import tempfile, shutil, os
    from pypower.api import runuopf
    from pypower.loadcase import loadcase
    d = tempfile.mkdtemp(prefix='verif-uopf-')
    try:
        f, c = os.path.join(d, 'out.txt'), os.path.join(d, 'solved.py')
        p = dict(o, OUT_ALL=-1)
        r2 = runuopf(case, p, f, c)
        txt = open(f).read()
        expect('Bus Data' in txt, 'file', 'no report in the file')
        q = loadcase(c)
        expect(np.array_equal(q['gen'][:, 7], r2['gen'][:, 7]), 'file', 'commitment in the saved case')
        for k in range(len(q['gen'])):
            expect(abs(q['gen'][k, 1] - r2['gen'][k, 1]) < 1e-3, 'file', 'dispatch in the saved case')
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- ties

def make_f(d, mode):
    e = d.cells(80)
    n = e.i_(1, 8)
    v = [e.pick([-3.5, 0.0, 1.25, 2.0, 2.0, 7.0]) if e.chance(.7) else e.c(-9, 9) for _ in range(n)]
    return {'x': v, 'list': e.chance(.2)}


def check_f(s):
    from pypower.fairmax import fairmax
    x = s['x']
    best = [i for i, v in enumerate(x) if v == max(x)]
    seen = set()
    for _ in range(12 * len(best) + 40):
        v, i = fairmax(np.array(x))
        expect(v == max(x), 'fairmax-value', 'maximum %r of %s' % (v, x))
        expect(int(i) == i and int(i) in best, 'fairmax-index', 'index %r of the maximum of %s' % (i, x))
        seen.add(int(i))
    expect(seen == set(best), 'fairmax-fair', 'positions %s never picked among %s' % (sorted(set(best) - seen), best))
    return ['ties=%d' % len(best)] + (['nontrivial'] if len(best) > 1 else [])


SUBS = [Sub('dc', gen.spec_strategy(make, 'dc'), check, 300, 6000, limit=120),
        Sub('ac', gen.spec_strategy(make, 'ac'), check, 70, 2000, limit=200),
        Sub('ties', gen.spec_strategy(make_f, 'ties'), check_f, 100, 2000)]
