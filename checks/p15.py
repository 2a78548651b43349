"""P15  A successful AC optimal power flow is feasible, has the stated cost, and is a KKT point with the reported prices."""
import math
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, acsol, mips
from vlib.util import opts, close, same, snapshot, base_labels, dense

ID = 'P15'
RULE = ('random networks around a known feasible AC operating point, with tight or loose voltage, output, flow (apparent, active or current), angle and '
        'capability limits, dispatchable loads, polynomial and piecewise linear P and Q costs; both PIPS variants and three entry points. '
        'Oracle: feasibility and optimality conditions in an independent real-arithmetic model with complex-step gradients; '
        'non-convergence is compared with an independent interior point iteration. Non-trivial: solved with a binding limit')
TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-8, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)


def make(d, mode):
    net = gen.draw_net(d, nb_max=6, stress=.7)
    acopf.add_opf(d, net, pqcap=.4 if mode == 'cap' else .1, disp=.5 if mode == 'cap' else .3, qcost=.35)
    return {'net': net, 'via': d.pick(['runopf', 'runopf', 'opf', 'arrays']), 'alg': d.pick([0, 560, 560, 565]), 'kind': d.pick([0, 0, 1, 2]),
            'ign': 1 if d.chance(.08) else 0, 'tight': d.chance(.7), 'raw': 1 if d.chance(.15) else 0, 'cols': d.pick([13, 13, 17, 21])}


def run(s, case):
    from pypower.api import runopf, opf
    k = dict(OPF_ALG=s['alg'], OPF_FLOW_LIM=s['kind'], OPF_IGNORE_ANG_LIM=s['ign'], RETURN_RAW_DER=s['raw'])
    if s['tight']:
        k.update(TIGHT)
    o = opts(**k)
    if s['via'] == 'runopf':
        return runopf(case, o)
    if s['via'] == 'opf':
        return opf(case, o)
    return opf(case['baseMVA'], case['bus'], case['gen'], case['branch'], np.array([]), case['gencost'], o)


def reference(ppc, L, kind, ign, sc, limit=100, user=None):
    """An independent run of the published algorithm on the same problem. None or the number of iterations."""
    net = acopf.AcNet(L)
    n, ng, base = L.n, len(L.g), L.base
    G = len(L.gen)
    gc = [np.array(ppc['gencost'][k], float) for k in L.g]
    if len(ppc['gencost']) > G:
        gc += [np.array(ppc['gencost'][G + k], float) for k in L.g]
    for r in gc:
        if r[0] == 1 and int(r[3]) == 2:
            p0, c0, p1, c1 = r[4:8]
            m = (c1 - c0) / (p1 - p0)
            r[:6] = [2, 0, 0, 2, m, c0 - m * p0]
    pw = [j for j, r in enumerate(gc) if r[0] == 1]
    ny = len(pw)
    zl, zu, UA, ul, uu, uc = user or (np.zeros(0), np.zeros(0), None, None, None, None)
    nz, nx = len(zl), 2 * n + 2 * ng
    N = nx + ny + nz
    ix = list(range(nx)) + list(range(nx + ny, N))     # the columns of user data
    il = [i for i, k in enumerate(L.br) if 0 < L.branch[k][5] < 1e10]
    lim2 = np.array([(L.branch[L.br[i]][5] / base) ** 2 for i in il])
    A, l, u = [], [], []
    I = float('inf')
    for j, k in enumerate(L.g):
        r = L.gen[k]
        for a, b, _ in acsol.cap_rows(r):
            w = np.zeros(N)
            w[2 * n + j], w[2 * n + ng + j] = a
            A.append(w), l.append(-I), u.append(b / base)
        if acsol.is_load(r) and (r[3] or r[4]):
            w = np.zeros(N)
            h = math.hypot(r[9], acsol.qlim(r))
            w[2 * n + j], w[2 * n + ng + j] = acsol.qlim(r) / h, -r[9] / h
            A.append(w), l.append(0.), u.append(0.)
    if not ign:
        for i, k in enumerate(L.br):
            b = L.branch[k]
            if (b[11] != 0 and b[11] > -360) or (b[12] != 0 and b[12] < 360):
                w = np.zeros(N)
                w[L.F[i]] += 1
                w[L.T[i]] -= 1
                A.append(w), l.append(b[11] * acsol.D2R if b[11] else -I), u.append(b[12] * acsol.D2R if b[12] else I)
    last = []
    for y, j in enumerate(pw):
        r = gc[j]
        m = int(r[3])
        p, q = r[4:4 + 2 * m:2] / base, r[5:5 + 2 * m:2]
        s = np.diff(q) / np.diff(p)
        last.append(q[-1])
        for i in range(m - 1):
            w = np.zeros(N)
            w[2 * n + j], w[2 * n + 2 * ng + y] = s[i], -1.0
            A.append(w), l.append(-I), u.append(s[i] * p[i] - q[i])
    for a, b, c in zip(UA if UA is not None else [], ul if UA is not None else [], uu if UA is not None else []):
        w = np.zeros(N)
        w[ix] = a
        A.append(w), l.append(b), u.append(c)
    A = np.array(A).reshape(-1, N)
    bus = L.bus[L.rows]
    lo, hi = np.full(n, -I), np.full(n, I)
    refs = [i for i in range(n) if int(bus[i, 1]) == 3]
    for i in refs:
        lo[i] = hi[i] = bus[i, 8] * acsol.D2R
    g = L.gen[L.g]
    lo = np.concatenate([lo, bus[:, 12], g[:, 9] / base, g[:, 4] / base, np.full(ny, -I), zl])
    hi = np.concatenate([hi, bus[:, 11], g[:, 8] / base, g[:, 3] / base, np.full(ny, I), zu])
    x0 = (np.where(lo == -I, -1e10, lo) + np.where(hi == I, 1e10, hi)) / 2
    x0 = np.where((lo == -I) & (hi < I), hi - 1, np.where((lo > -I) & (hi == I), lo + 1, x0))
    x0[:n] = bus[refs[0], 8] * acsol.D2R
    if ny:
        x0[nx:nx + ny] = max(last) + .1 * abs(max(last))
    C = np.zeros((n, ng))
    for j, b in enumerate(L.gb):
        C[b, j] = 1
    c0, c1, c2 = np.zeros(2 * ng), np.zeros(2 * ng), np.zeros(2 * ng)

    def fun(x):
        f, df = 0.0, np.zeros(N)
        for j, r in enumerate(gc):
            if r[0] == 2:
                k = int(r[3])
                co = r[4:4 + k]
                v = x[2 * n + j] * base
                f += acopf.horner(co, v)
                df[2 * n + j] = acopf.gencost_slopes(r, v)[0] * base
        f += x[nx:nx + ny].sum()
        df[nx:nx + ny] = 1
        if uc:
            f += float(acopf.user_cost(uc, x[ix]))
            df[ix] += acopf.cstep(lambda z: acopf.user_cost(uc, z)[None, :], x[ix])[0]
        return f, df

    def g_h(z):
        a, m = z[:n], z[n:2 * n]
        p, q = net.inj(a, m)
        sd = L.Sd if z.ndim == 1 else L.Sd[:, None]
        ge = np.concatenate([p + sd.real - C @ z[2 * n:2 * n + ng], q + sd.imag - C @ z[2 * n + ng:2 * n + 2 * ng]])
        f2, t2 = net.flow2(a, m, kind)
        l2 = lim2 if z.ndim == 1 else lim2[:, None]
        return ge, np.concatenate([f2[il] - l2, t2[il] - l2])

    def con(x):
        ge, h = g_h(x)
        J = acopf.cstep(lambda z: np.concatenate(g_h(z)), x)
        return h, ge, J[2 * n:].T, J[:2 * n].T

    def hess(x, lam, mu, cm):
        H = np.zeros((N, N))
        v = x[:2 * n]

        def lag(z):
            p, q = net.inj(z[:n], z[n:])
            f2, t2 = net.flow2(z[:n], z[n:], kind)
            return (lam[:n] @ p + lam[n:2 * n] @ q + mu[:len(il)] @ f2[il] + mu[len(il):] @ t2[il])[None, :]
        H[:2 * n, :2 * n] = acopf.hessian(lag, v)
        for j, r in enumerate(gc):
            if r[0] == 2:
                k = int(r[3])
                co = [a * (k - 1 - i) * (k - 2 - i) for i, a in enumerate(r[4:4 + k])][:-2]
                H[2 * n + j, 2 * n + j] += cm * base ** 2 * acopf.horner(co, x[2 * n + j] * base) if co else 0.0
        if uc:
            H[np.ix_(ix, ix)] += cm * acopf.hessian(lambda z: acopf.user_cost(uc, z)[None, :], x[ix])
        return H

    def go(x, t):
        return mips.solve(fun, con, hess, x, A, np.array(l), np.array(u), lo, hi, tol=t, cm=1e-4, sc=sc)
    return mips.robust(go, x0, limit, 1e-6)


def check(s):
    net = s['net']
    ppc = net['ppc']
    case = gen.arr(ppc)
    k = s['cols'] - 13
    case['branch'] = np.hstack([case['branch'], np.full((len(case['branch']), k), 3.75)])
    before = snapshot(case)
    res = run(s, case)
    expect(same(before, case), 'input-modified', 'the case passed in was modified')
    ok = bool(res['success'])
    L = ref.Live(ppc)
    labels = base_labels(net, L) + ['via=' + s['via'], 'alg=%d' % s['alg'], 'kind=%d' % s['kind'], 'tight=%d' % s['tight'], 'ok=%d' % ok]
    if not ok:
        if not s['tight'] and L.n <= 4:
            it = reference(ppc, L, s['kind'], s['ign'], s['alg'] == 565)
            labels.append('failed-checked')
            expect(it is None, 'no-convergence', 'an independent interior point iteration solves the problem in %s steps' % it)
        return labels + ['failed-tight' if s['tight'] else 'failed']
    X = 1 + max(np.abs(res['x']).max(), acsol.slack_size(ppc, res, L, s['kind']))
    ft = 1e-8 if s['tight'] else 5e-6
    tol = 1.5 * ft * X + 1e-7
    L, an, va, vm = acsol.feasible(ppc, res, tol, s['kind'], s['ign'])
    c = acsol.cost(ppc, res, L)
    sl = acsol.max_slope(ppc, res, L)
    close(res['f'], c, 1e-5 * (1 + abs(c)) + (1e-5 + tol) * sl * L.base * 3, 'cost', 'objective vs cost of the dispatch')
    ct = (1e-8 if s['tight'] else 1e-6) * 1e4
    acsol.kkt(ppc, res, L, an, va, vm, 1e-8 if s['tight'] else 1e-6, 3 * ct * X + 1e-2, s['kind'], s['ign'])
    bus, g, br = res['bus'], res['gen'], res['branch']
    for q, b in zip(L.g, L.gb):
        expect(g[q, 5] == bus[L.rows[b], 7], 'vg', lambda: 'VG of unit %d is %r, its bus is at %r' % (q, g[q, 5], bus[L.rows[b], 7]))
    expect(np.array_equal(bus[:, :7], case['bus'][:, :7]) and np.array_equal(bus[:, 9:13], case['bus'][:, 9:13]), 'bus-data')
    expect(np.array_equal(g[:, [0, 3, 4, 6, 7, 8, 9]], case['gen'][:, [0, 3, 4, 6, 7, 8, 9]]), 'gen-data')
    expect(np.array_equal(br[:, :13], case['branch'][:, :13]), 'branch-data')
    if s['raw']:
        w = res['raw']
        nx = res['om'].getN('var')
        expect(dense(w['dg']).shape[1] == nx and dense(w['dg']).shape[0] == len(w['g']), 'raw', 'raw derivatives %s, %s' % (dense(w['dg']).shape, len(w['g'])))
        close(np.asarray(w['g'])[:2 * L.n], np.zeros(2 * L.n), tol, 'raw', 'power balance in the raw constraints')
        fin = np.asarray(w['g'])[2 * L.n:]
        expect(bool(np.all(fin <= tol * 2 + 1e-6)), 'raw', 'flow constraints in the raw output: %s' % fin)
        expect(np.shape(w['df']) == (nx,) and dense(w['d2f']).shape == (nx, nx), 'raw', 'raw cost derivatives')
    nm = [('pmax', g[L.g, 21]), ('pmin', g[L.g, 22]), ('qmax', g[L.g, 23]), ('qmin', g[L.g, 24]), ('vmax', bus[L.rows, 15] / L.base), ('vmin', bus[L.rows, 16] / L.base),
          ('flow', br[:, 17]), ('flow', br[:, 18]), ('ang', br[:, 19]), ('ang', br[:, 20])]
    b = sorted(set('bind=' + a for a, t in nm if t.size and t.max() > 1e-2))
    return labels + b + (['nontrivial'] if b else [])


SUBS = [Sub('solve', gen.spec_strategy(make, 'std'), check, 300, 9000),
        Sub('cap', gen.spec_strategy(make, 'cap'), check, 150, 5000)]
