"""P21  DC lines: schedule kept in the power flow, limits, losses and least cost in the OPF."""
import copy
import math
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, acsol, dcopf
from vlib.util import opts, close, same, snapshot, base_labels, saved, printed

ID = 'P21'
RULE = ('random networks with 1-4 DC lines between random buses (also at the reference bus, at isolated buses, in parallel, out of service), losses, schedules, '
        'one- and two-sided limits in both directions, with and without costs (polynomial and piecewise linear); power flow (AC, DC) and OPF (AC, DC). Oracle: '
        'power balance with the flow of every live line from the tables, set-points and schedule kept, and for the OPF an equivalent case with two explicit '
        'units per line, its LP/QP or its optimality conditions. Non-trivial: solved with a live line')
TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-8, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)
D2R = math.pi / 180
BIG = 1e12


def live(s):
    """Positions of the lines in service."""
    t = {int(r[0]): int(r[1]) for r in s['net']['ppc']['bus']}
    return [k for k, r in enumerate(s['dcline']) if r[2] > 0 and t[r[0]] != 4 and t[r[1]] != 4]


def make(d, mode):
    pf = mode in ('acpf', 'dcpf')
    net = gen.draw_net(d, nb_max=8 if pf else 6, stress=.7)
    if mode == 'dcopf':
        dcopf.add_dcopf(d, net)
    elif mode == 'acopf':
        acopf.add_opf(d, net, pqcap=.1, disp=.3, qcost=.3)
    ppc = net['ppc']
    base = ppc['baseMVA']
    L = ref.Live(ppc)
    nd = d.pick([1, 1, 2, 2, 3, 4])
    rows, costs = [], []
    costed = not pf and d.chance(.6) or d.chance(.1)
    num = [int(r[0]) for r in ppc['bus']]
    pos = {b: i for i, b in enumerate(num)}
    liven = [num[k] for k in L.rows]
    for k in range(nd):
        e = d.cells(60)
        f = e.pick(num) if e.chance(.15) else e.pick(liven)
        t = e.pick(num) if e.chance(.15) else e.pick(liven)
        if f == t:
            t = liven[(liven.index(f) + 1) % len(liven)] if f in liven else liven[0]
        on = 1 if e.chance(.8) else e.pick([0, 0, -1])
        P = e.c(-.6, .6) * base
        P = round(P, 3)
        l1 = e.f(0, .08) if e.chance(.6) else 0.0
        l0 = round(e.f(0, .03) * base, 3) if e.chance(.6) else 0.0
        PT = P - l0 - l1 * P
        qf, qt = (round(e.c(-.2, .2) * base, 3) for _ in 'ft')
        vf, vt = (net['sol']['vm'][pos[b]] for b in (f, t))
        w = lambda: (e.f(.01, .1, 3) if e.chance(.5) else e.f(.1, .8, 3)) * base
        lo, hi = (P if P - w() >= 0 else PT) - w(), (P if P >= 0 else PT) + w()
        lo, hi = round(lo, 3), round(hi, 3)
        # the limit on the from end if not negative, else on the to end
        if lo >= 0 and P < lo or lo < 0 and PT < lo:
            lo = round(min(P, PT) - .1 * base, 3)
            if lo >= 0 and P < lo or lo < 0 and PT < lo:
                lo = -base
        if hi >= 0 and P > hi or hi < 0 and PT > hi:
            hi = round(max(P, PT, 0) + .1 * base, 3)
        m = e.pick(['both'] * 5 + ['lo', 'hi', 'zero'])
        if m == 'lo':
            hi = float('inf')
        elif m == 'hi':
            lo = -float('inf')
        elif m == 'zero' and P > 0:
            lo = 0.0
        qm = [round(v, 3) for v in (qf - w(), qf + w(), qt - w(), qt + w())]
        rows.append([f, t, on, P, 0.0 if e.chance(.5) else PT, qf, qt, vf, vt, lo, hi] + qm + [l0, l1])
        if on > 0 and f in liven and t in liven:
            for b, p, q in ((f, P, -qf), (t, -PT, -qt)):
                r = ppc['bus'][pos[b]]
                r[2] = r[2] - p
                if not pf:
                    r[3] = r[3] - q
        if e.chance(.4):
            a, b = P - 2 * base, P + 2 * base
            if e.chance(.5):
                row = [2, 0, 0, 2, e.f(0, 8, 2), e.f(0, 5, 1), 0, 0, 0, 0]
            else:
                m1 = e.c(-5, 5, 2)
                m2 = m1 + e.f(.5, 8, 2)
                y = m1 * (P - a)
                row = [1, 0, 0, 3, a, 0.0, P, y, b, y + m2 * (b - P)] if e.chance(.7) else [1, 0, 0, 2, a, 0.0, b, m2 * (b - a), 0, 0]
        else:
            row = [2, 0, 0, 3, e.f(0, .01), e.c(-8, 8, 2), e.f(0, 5, 1), 0, 0, 0] if e.chance(.7) else [2, 0, 0, 2, e.c(-8, 8, 2), 0.0, 0, 0, 0, 0]
        if not np.isfinite([lo, hi]).all():      # (otherwise the set of best flows may be unbounded)
            if costed:
                row = [2, 0, 0, 3, e.f(.002, .01), row[4] if row[0] == 2 else 1.0, 0.0, 0, 0, 0]
            else:
                rows[-1][9:11] = min(lo, 0) if lo > -BIG else -2 * base, hi if hi < BIG else 2 * base
        costs.append([float(v) for v in row])
    s = {'net': net, 'dcline': rows, 'cost': costs if costed else None, 'mode': mode, 'kind': d.pick([0, 0, 1, 2]),
         'tight': d.chance(.7), 'alg': d.pick([0, 0, 1]), 'via': d.pick(['run', 'run', 'again', 'lib']), 'save': d.pick([0, 0, 1, 2]), 'muc': d.chance(.2)}
    if mode == 'acpf':
        # the voltages the lines ask for: those of the known solution, or others
        s['off'] = d.chance(.3)
        if s['off']:
            for r in rows:
                r[7], r[8] = r[7] + d.cf(-.02, .02), r[8] + d.cf(-.02, .02)
            at = {}
            for r in rows:
                for b, v in ((r[0], r[7]), (r[1], r[8])):
                    at.setdefault(b, v)
            for r in rows:
                r[7], r[8] = at[r[0]], at[r[1]]
            for g in ppc['gen']:
                g[5] = at.get(int(g[0]), g[5])
        if d.chance(.5):
            gen.perturb_start(d, ppc)
    return s


def dccase(s):
    case = gen.arr(s['net']['ppc'])
    dc = np.array(s['dcline'], float)
    if s['muc']:
        dc = np.hstack([dc, np.full((len(dc), 6), .25)])
    case['dcline'] = dc
    if s['cost']:
        case['dclinecost'] = np.array(s['cost'])
    return case


def expand(s):
    """The same problem with two explicit units per live line; costs of the from unit are functions of minus its output."""
    ppc = copy.deepcopy(s['net']['ppc'])
    base = ppc['baseMVA']
    lv = live(s)
    fg, tg, fc, tc = [], [], [], []
    w = max([len(r) for r in ppc['gencost']] + [10])
    for k in lv:
        r = s['dcline'][k]
        l, h = r[9], r[10]
        f = [r[0], -r[3], r[5], r[12], r[11], r[7], 100.0, 1, BIG, -BIG] + [0.0] * 11
        t = [r[1], 0.0, r[6], r[14], r[13], r[8], 100.0, 1, BIG, -BIG] + [0.0] * 11
        if l >= 0:
            f[8] = -l or -1e-9
        elif l > -BIG:
            t[9] = l
        if h < 0:
            t[8] = h
        elif h < BIG:
            f[9] = -h
        c = s['cost'][k] if s['cost'] else [2, 0, 0, 2, 0, 0]
        n = int(c[3])
        if c[0] == 2:
            co = [v * (-1) ** (n - 1 - i) for i, v in enumerate(c[4:4 + n])]
        else:
            pts = [(-c[4 + 2 * i], c[5 + 2 * i]) for i in range(n)][::-1]
            co = [v for p in pts for v in p]
        pad = lambda v: list(v) + [0.0] * (w - len(v))
        fg.append(f)
        tg.append(t)
        fc.append(pad(list(c[:4]) + co))
        tc.append(pad([2, 0, 0, 2]))
    ng = len(ppc['gen'])
    gc = [list(r) + [0.0] * (w - len(r)) for r in ppc['gencost']]
    ppc['gencost'] = gc[:ng] + fc + tc
    if len(gc) > ng:
        ppc['gencost'] += gc[ng:] + [[2, 0, 0, 2] + [0.0] * (w - 4) for _ in range(2 * len(lv))]
    ppc['gen'] = ppc['gen'] + fg + tg
    return ppc, ng, lv


def expand_res(s, res, ng, lv):
    """Result tables for the expanded case."""
    dc = res['dcline']
    g = res['gen']
    out = {k: res[k] for k in ('bus', 'branch', 'f', 'x', 'success') if k in res}
    f, t = np.zeros((len(lv), g.shape[1])), np.zeros((len(lv), g.shape[1]))
    for i, k in enumerate(lv):
        r = s['dcline'][k]
        f[i, [0, 1, 2]] = r[0], -dc[k, 3], dc[k, 5]
        t[i, [0, 1, 2]] = r[1], dc[k, 4], dc[k, 6]
        (f if r[9] >= 0 else t)[i, 21 if r[9] >= 0 else 22] += dc[k, 17]
        (t if r[10] < 0 else f)[i, 21 if r[10] < 0 else 22] += dc[k, 18]
        f[i, 23:25] = dc[k, [20, 19]]
        t[i, 23:25] = dc[k, [22, 21]]
    out['gen'] = np.vstack([g, f, t])
    return out


def run(s, case, o):
    from pypower.api import runpf, rundcpf, runopf, rundcopf, opf
    if s['mode'] == 'acpf':
        return runpf(case, o)[0]
    if s['mode'] == 'dcpf':
        return (rundcpf(case, o) if s['via'] == 'lib' else runpf(case, opts(PF_DC=1)))[0]
    if s['via'] == 'lib':
        return opf(case, o)
    return rundcopf(case, o) if s['mode'] == 'dcopf' and s['alg'] == 0 else runopf(case, o)


def options(s):
    if s['mode'] == 'acpf':
        return opts(PF_TOL=1e-10, PF_MAX_IT=15)
    if s['mode'] == 'dcpf':
        return opts(PF_DC=1)
    k = dict(TIGHT if s['tight'] else {}, OPF_FLOW_LIM=s['kind'])
    if s['mode'] == 'dcopf':
        k.update(PF_DC=1, OPF_ALG_DC=250 if s['alg'] else 0)
    else:
        k.update(OPF_ALG=565 if s['alg'] else 0)
    return opts(**k)


def check(s):
    from pypower.toggle_dcline import toggle_dcline
    net = s['net']
    case = dccase(s)
    L = ref.Live(net['ppc'])
    before = snapshot(case)
    o = options(s)
    on = toggle_dcline(case, 'on')
    keep = snapshot(on)
    res = run(s, on, o)
    nofcn = lambda c: {a: b for a, b in c.items() if a != 'userfcn'}
    expect(same(nofcn(keep), nofcn(on)), 'input-modified', 'the case passed in was modified')
    pf = s['mode'] in ('acpf', 'dcpf')
    if s['via'] == 'again':     # a result is a case
        keep = snapshot({a: res[a] for a in ('bus', 'gen', 'branch', 'dcline')})
        r2 = run(s, res, o)
        expect(same(keep, {a: res[a] for a in ('bus', 'gen', 'branch', 'dcline')}), 'input-modified', 'solving a result again modified it')
        expect(bool(r2['success']) or not res['success'] or not pf, 'again', 'solving the result again fails')
        if res['success'] and r2['success']:
            if s['mode'] == 'dcopf':
                close(r2['f'], res['f'], 1e-4 * (1 + abs(res['f'])), 'again', 'cost when the result is solved again')
            res = r2
    if s['save']:
        src = res if s['save'] == 2 else case
        back = saved(dict(res) if s['save'] == 2 else on)
        for f in ('dcline', 'dclinecost'):
            expect((f in src) == (f in back) and same(src.get(f), back.get(f)), 'save', lambda: '%s is %r after saving and loading, was %r' % (f, back.get(f), src.get(f)))
        if s['save'] == 2:
            printed_ok(res, s, o)
    if 'userfcn' in res:
        res = toggle_dcline(res, 'off')
    off = toggle_dcline(on, 'off')
    for c in (res, off):
        u = c.pop('userfcn', None) or {}
        expect(not any(len(v) for v in u.values()), 'toggle', lambda: 'callbacks left: %s' % u)
    expect(same(before, off), 'toggle', 'turning DC lines on and off changed the case')
    lv = live(s)
    ok = bool(res['success'])
    labels = base_labels(net, L) + ['via=' + s['via'], 'live=%d' % len(lv), 'ok=%d' % ok]
    # tables
    dc, dc0 = res['dcline'], case['dcline']
    expect(len(dc) == len(dc0) and len(res['gen']) == len(case['gen']), 'tables', lambda: 'shapes %s, %s' % (dc.shape, res['gen'].shape))
    expect('gencost' not in case or same(case['gencost'], res['gencost']), 'gencost', 'gencost comes back changed')
    expect(('dclinecost' in case) == ('dclinecost' in res) and same(case.get('dclinecost'), res.get('dclinecost')), 'dclinecost', 'dclinecost comes back changed')
    close(dc[:, [0, 1, 2, 9, 10, 11, 12, 13, 14, 15, 16]] if np.isfinite(dc0[:, :17]).all() else np.nan_to_num(dc[:, [0, 1, 2, 9, 10, 11, 12, 13, 14, 15, 16]]),
          np.nan_to_num(dc0[:, [0, 1, 2, 9, 10, 11, 12, 13, 14, 15, 16]]), 0, 'data', 'DC line data')
    expect(np.array_equal(res['bus'][:, 0], case['bus'][:, 0]) and np.array_equal(res['gen'][:, 0], case['gen'][:, 0]), 'tables', 'bus numbers')
    if pf:
        return labels + check_pf(s, net, L, res, dc, dc0, lv, ok)
    return labels + check_opf(s, res, dc, lv, ok)


def comfortable(s):
    """Newton's method, done independently on the network with two units per line, converges easily."""
    ng = len(s['net']['ppc']['gen'])
    free = copy.deepcopy(s['net'])
    free['ppc']['gencost'] = [[2, 0, 0, 2, 0, 0]] * ng
    ppc, ng, lv = expand(dict(s, net=free, cost=None))
    pos = {int(b[0]): b for b in ppc['bus']}
    for i, k in enumerate(lv):
        r = s['dcline'][k]
        ppc['gen'][ng + len(lv) + i][1] = r[3] * (1 - r[16]) - r[15]
        for b in (pos[int(r[0])], pos[int(r[1])]):
            if b[1] == 1:
                b[1] = 2
    vm, va, it, cond, hist = ref.Live(ppc).newton(tol=1e-10, max_it=12)
    return it is not None and it <= 7 and cond < 1e5 and max(hist) < 1e2


def check_pf(s, net, L, res, dc, dc0, lv, ok):
    base = L.base
    if s['mode'] == 'dcpf':
        expect(ok, 'no-solution', 'the DC power flow failed')
    elif not ok and comfortable(s):
        raise Violation('no-solution', 'the power flow failed where an independent Newton iteration from the same start converges')
    if not ok:
        return []
    P, PT = dc0[lv, 3], dc0[lv, 3] * (1 - dc0[lv, 16]) - dc0[lv, 15]
    close(dc[lv, 3], P, 1e-9 * (1 + np.abs(P)), 'schedule', 'flow at the from end vs schedule')
    close(dc[lv, 4], PT, 1e-9 * (1 + np.abs(P)), 'loss', 'flow at the to end vs loss model')
    bus, g, br = res['bus'], res['gen'], res['branch']
    S = np.zeros(L.n, complex)
    for k, b in zip(L.g, L.gb):
        S[b] += complex(g[k, 1], g[k, 2])
    for k in lv:
        S[L.idx[int(dc[k, 0])]] += complex(-dc[k, 3], dc[k, 5])
        S[L.idx[int(dc[k, 1])]] += complex(dc[k, 4], dc[k, 6])
    S = S / base - L.Sd
    moved = [k for k, b in zip(L.g, L.gb) if b not in L.refs and abs(g[k, 1] - L.gen[k, 1]) > 0]
    expect(not moved, 'gen-moved', lambda: 'units %s moved' % moved)
    va = bus[L.rows, 8] * D2R
    if s['mode'] == 'dcpf':
        B, Bf, Pf, Pb = L.dc()
        close(S.real, B @ va + Pb + L.Ysh.real, 1e-8 * (1 + np.abs(B).max()), 'balance', 'injections vs DC model')
        fl = (Bf @ va + Pf) * base
        if L.br:
            close(br[L.br, 13], fl, 1e-7 * (1 + np.abs(fl).max()), 'flows', 'branch flows')
    else:
        vm = bus[L.rows, 7]
        V = vm * np.exp(1j * va)
        close(S, V * np.conj(L.ybus() @ V), 3e-9 * (1 + np.abs(L.ybus()).max()), 'balance', 'injections vs voltages')
        close(bus[[L.rows[L.idx[int(dc0[k, c])]] for k in lv for c in (0, 1)], 7], np.array([dc0[k, c] for k in lv for c in (7, 8)]), 1e-9, 'voltage', 'voltage at the terminals')
        close(dc[lv][:, [7, 8]], dc0[lv][:, [7, 8]], 1e-9, 'voltage', 'set-points')
        at = {L.idx[int(dc0[k, c])] for k in lv for c in (0, 1)}
        for k, b in zip(L.g, L.gb):
            if int(L.bus[L.rows[b], 1]) in (2, 3) and b not in at:
                expect(abs(vm[b] - L.gen[k, 5]) < 1e-9, 'setpoint', lambda: 'unit %d: voltage %g, set-point %g' % (k, vm[b], L.gen[k, 5]))
    off = [k for k in range(len(dc)) if k not in lv]
    close(dc[off][:, :9], dc0[off][:, :9], 0, 'off', 'data of lines out of service')
    return ['nontrivial'] if lv else []


def check_opf(s, res, dc, lv, ok):
    ppc, ng, _ = expand(s)
    E = expand_res(s, res, ng, lv) if ok else None
    L = ref.Live(ppc)
    base = L.base
    n = len(lv)
    P = dcopf.Problem(ppc)
    cp, ct = [L.g.index(ng + i) for i in range(n)], [L.g.index(ng + n + i) for i in range(n)]
    for i, k in enumerate(lv):
        r = s['dcline'][k]
        a = np.zeros(P.nx)
        a[P.n + cp[i]], a[P.n + ct[i]] = 1 - r[16], 1.0
        P.row(a, -r[15] / base, -r[15] / base, ('dcline', k))
    # (PIPS and this harness treat bounds beyond 1e10 as absent)
    P.lo[P.lo <= -BIG / base], P.hi[P.hi >= BIG / base] = -np.inf, np.inf
    if not ok:
        if s['mode'] == 'dcopf' and s['tight'] is False and P.feasible(.002):
            it = P.converges(sc=s['alg'] == 1, tol=1e-6)
            expect(it is None, 'no-convergence', 'the problem is strictly feasible and an independent interior point iteration solves it in %s steps' % it)
            return ['failed-feasible']
        return ['failed-tight' if s['tight'] else 'failed']
    ft = 1e-8 if s['tight'] else 5e-6
    lin = res['lin']['mu']
    mu = np.asarray(lin['u']['dcline'], float).ravel() - np.asarray(lin['l']['dcline'], float).ravel() if n else np.zeros(0)
    expect(mu.shape == (n,), 'mu', lambda: '%s multipliers for %d lines' % (mu.shape, n))
    off = [k for k in range(len(dc)) if k not in lv]
    expect(dc.shape[1] == 23, 'tables', 'no multiplier columns')
    close(dc[off][:, 17:], np.zeros((len(off), 6)), 0, 'off', 'multipliers of lines out of service')
    X = 1 + max([np.abs(res['x']).max(), acsol.slack_size(ppc, E, L, s['kind'])])
    tol = 1.5 * ft * X + 1e-7
    for k in lv:
        r = s['dcline'][k]
        close(dc[k, 4], dc[k, 3] * (1 - r[16]) - r[15], tol * base, 'loss', 'flow at the to end of line %d vs its losses' % k)
    if s['mode'] == 'dcopf':
        expect(P.feasible(-1e-3) is not False, 'infeasible-solved', 'success reported for an infeasible problem')
        c = dcopf.check_solution(P, E, P.pack(E), tol=ft, f=res['f'])
        m = P.minimum_lp()
        if m is not None:
            close(c, m[0], 1e-4 * (1 + abs(m[0])) + 1e-4 * P.base * 60, 'optimum', 'cost vs the minimum found by HiGHS')
        ex = np.zeros(P.ng)
        for i, k in enumerate(lv):
            ex[cp[i]], ex[ct[i]] = mu[i] * (1 - s['dcline'][k][16]) / base, mu[i] / base
        dcopf.check_multipliers(P, E, extra_pg=ex)
    else:
        gt = (1e-8 if s['tight'] else 1e-6)
        ctol = gt * 1e4
        lam = np.abs(res['bus'][L.rows, 13:15]).max()
        comp = 3 * ctol * X + 1e-2
        L, an, va, vm = acsol.feasible(ppc, E, tol, s['kind'])
        c = acsol.cost(ppc, E, L)
        sl = acsol.max_slope(ppc, E, L)
        close(res['f'], c, 1e-5 * (1 + abs(c)) + (1e-5 + tol) * sl * base * 3, 'cost', 'objective vs cost of dispatch')
        ex = {}
        for i, k in enumerate(lv):
            ex[ng + i], ex[ng + n + i] = mu[i] * (1 - s['dcline'][k][16]) / base, mu[i] / base
        acsol.kkt(ppc, E, L, an, va, vm, gt, comp, s['kind'], extra=max([lam * base] + list(np.abs(mu))), extra_p=ex, lost=1)
        for k in lv:
            for c_, b in ((7, dc[k, 0]), (8, dc[k, 1])):
                i = L.idx[int(b)]
                close(dc[k, c_], vm[i], 1e-9, 'voltage', 'voltage reported for a terminal of line %d' % k)
    labels = ['nontrivial'] if n else []
    if n and dc[lv][:, 17:19].max() > 1e-2:
        labels.append('line-limit-binds')
    return labels


def printed_ok(res, s, o):
    if np.abs(res['dcline'][:, [3, 4, 5, 6]]).max() > 1e5 or not res['success']:
        return
    txt = printed(res, o, OUT_ALL=1)
    i = txt.index('DC Line Data')
    n = len(s['dcline'])
    lines = txt[i:].split('\n')
    st = [j for j, l in enumerate(lines) if l.startswith('------')][0] + 1
    loss = 0.0
    for k in range(n):
        row, r = lines[st + k].split(), res['dcline'][k]
        expect(row[:3] == ['%d' % v for v in (k, r[0], r[1])], 'print', lambda: 'row %r of line %d' % (row, k))
        if r[2]:
            want = ['%.2f' % v for v in (r[3], r[4], r[3] - r[4], r[5], r[6])]
            expect(row[3:] == want, 'print', lambda: 'row %r of line %d, flows %s' % (row, k, want))
            loss += r[3] - r[4]
        else:
            expect(row[3:] == ['-'] * 5, 'print', lambda: 'row %r of line %d' % (row, k))
    tot = [l for l in lines[st + n:] if 'Total' in l][0]
    expect(tot.split()[-1] == '%.2f' % loss, 'print', lambda: 'total loss %r, expected %.2f' % (tot, loss))
    limits_ok(res, s, o, txt)


def limit_rows(txt):
    """{line: columns of its row} of the printed table of line limits, None if there is none."""
    if 'DC Line Constraints' not in txt:
        return None
    lines = txt[txt.index('DC Line Constraints'):].split('\n')
    st = [j for j, l in enumerate(lines) if l.startswith('------')][0] + 1
    rows = {}
    for l in lines[st:]:
        if not l.strip() or not l.split()[0].isdigit():
            break
        expect(int(l.split()[0]) not in rows, 'print', lambda: 'limit row %r listed again' % l)
        rows[int(l.split()[0])] = l.split()
    return rows


def limits_ok(res, s, o, txt):
    dc, n = res['dcline'], len(s['dcline'])
    full = limit_rows(txt)
    if dc.shape[1] <= 18:
        expect(full is None, 'print', lambda: 'limits of lines printed without an OPF')
        return
    if s['mode'] not in ('dcopf', 'acopf'):     # the columns of multipliers came with the case
        return
    expect(full is not None and sorted(full) == list(range(n)), 'print', lambda: 'lines listed with their limits: %s' % full)
    dig = lambda v: ['-'] if v < 1e-4 else ['%.3f' % v]
    for k in range(n):
        r = dc[k]
        want = ['%d' % v for v in (k, r[0], r[1])]
        if r[2]:
            if min(abs(r[17] - 1e-4), abs(r[18] - 1e-4)) < 1e-9:
                continue
            want += dig(r[17]) + ['%.2f' % v for v in (r[9], r[3], r[10])] + dig(r[18])
        else:
            want += ['-'] * 5
        expect(full[k] == want, 'print', lambda: 'limit row %r of line %d, expected %s' % (full[k], k, want))
    some = limit_rows(printed(res, o, OUT_ALL=-1, OUT_SYS_SUM=False, OUT_BUS=False, OUT_BRANCH=False, OUT_ALL_LIM=-1, OUT_LINE_LIM=1)) or {}
    none = limit_rows(printed(res, o, OUT_ALL=-1, OUT_SYS_SUM=False, OUT_BUS=False, OUT_BRANCH=False, OUT_ALL_LIM=-1, OUT_LINE_LIM=0))
    alls = limit_rows(printed(res, o, OUT_ALL=-1, OUT_SYS_SUM=False, OUT_BUS=False, OUT_BRANCH=False, OUT_ALL_LIM=2))
    expect(none is None, 'print', lambda: 'limits printed although switched off: %s' % none)
    expect(alls == full, 'print', lambda: 'all limits asked for, printed %s, expected %s' % (alls, full))
    tol = o['OPF_VIOLATION']
    for k in range(n):
        r = dc[k]
        room, mu = r[10] - r[3], max(r[17], r[18])
        if r[2] and (room < 0.99 * tol or mu > 1.01e-4):
            expect(some.get(k) == full[k], 'print', lambda: 'binding line %d is printed as %s, expected %s' % (k, some.get(k), full[k]))
        elif r[2] and room > 1.01 * tol and mu < 0.99e-4:
            expect(k not in some, 'print', lambda: 'line %d is listed but neither limit binds' % k)


SUBS = [Sub('acpf', gen.spec_strategy(make, 'acpf'), check, 400, 8000),
        Sub('dcpf', gen.spec_strategy(make, 'dcpf'), check, 300, 6000),
        Sub('dcopf', gen.spec_strategy(make, 'dcopf'), check, 400, 8000),
        Sub('acopf', gen.spec_strategy(make, 'acopf'), check, 200, 5000)]
