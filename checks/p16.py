"""P16  User constraints, variables and costs are honoured by the OPF."""
import os
import math
import shutil
import tempfile
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, acsol, dcopf
from vlib.util import opts, close, same, snapshot, dense, base_labels
from checks import p15

ID = 'P16'
RULE = ('random DC and AC OPF cases around a known feasible point with random user constraints (equalities, ranges, one-sided, on out-of-service elements), '
        'bounded or free extra variables and convex generalised costs (linear and quadratic, shifted, scaled, with dead zones), given in the case, as positional '
        'arguments, in a file or by a callback. Oracle: feasibility, the documented cost formula and the optimality conditions of the extended problem in an '
        'independent model. Non-trivial: solved with a user constraint or bound that binds, or a user cost that is not zero')
INF = float('inf')


def make(d, mode):
    dc = mode == 'dc'
    net = gen.draw_net(d, nb_max=6, stress=.8)
    if dc:
        dcopf.add_dcopf(d, net, tight=.3)
    else:
        acopf.add_opf(d, net, tight=.3, disp=.3, qcost=.3, pqcap=.1)
    ppc = net['ppc']
    nb, ng = len(ppc['bus']), len(ppc['gen'])
    L = ref.Live(ppc)
    base = ppc['baseMVA']
    if dc:
        va, _ = dcopf.point(L)
        x = np.zeros(nb + ng)
        x[L.rows] = va
        x[[nb + k for k in L.g]] = L.gen[L.g, 1] / base
        col = list(range(nb)) + [nb + k for k in range(ng)]
        hot = [nb + k for k in L.g] * 2 + list(L.rows)
    else:
        x = np.zeros(2 * nb + 2 * ng)
        x[L.rows] = np.array(net['sol']['va'])[L.rows] * math.pi / 180
        x[[nb + i for i in L.rows]] = np.array(net['sol']['vm'])[L.rows]
        x[[2 * nb + k for k in L.g]] = L.gen[L.g, 1] / base
        x[[2 * nb + ng + k for k in L.g]] = L.gen[L.g, 2] / base
        hot = [2 * nb + k for k in L.g] * 2 + [2 * nb + ng + k for k in L.g] + list(L.rows) + [nb + i for i in L.rows]
    nx = len(x)
    s = {'net': net, 'dc': dc, 'A': [], 'l': [], 'u': [], 'z': [], 'uc': None}
    m = d.pick([0, 1, 1, 2, 3])
    nz = d.pick([0, 0, 1, 2]) if m else 0
    nz = min(nz, nb + ng - 1)
    e = d.cells(30)
    zs = []
    for _ in range(nz):
        v = e.c(-1, 1, 3)
        zs.append(v)
        k = e.pick(['box', 'box', 'lo', 'hi', 'fix'])
        a, b = round(e.f(.05, 1.5), 3), round(e.f(.05, 1.5), 3)
        if k == 'fix':
            a = b = 0.0
        s['z'].append([v, None if k == 'hi' else round(v - a, 3), None if k == 'lo' else round(v + b, 3)])
    xs = np.concatenate([x, zs])
    used = []
    for i in range(m):
        e = d.cells(60)
        row = [0.0] * (nx + nz)
        for _ in range(e.i_(1, 3)):
            row[e.pick(hot) if e.chance(.85) else e.i_(0, nx - 1)] = e.c(-2, 2, 2) or 1.0
        for j in range(nz):
            if e.chance(.6):
                row[nx + j] = e.c(-2, 2, 2) or -1.0
        v = float(np.dot(row, xs))
        if not any(row):
            row[hot[0]] = 1.0
            v = float(xs[hot[0]])
        k = e.pick(['range', 'lo', 'hi', 'range', 'lo', 'hi', 'eq', 'loose', 'free'])
        if k == 'eq':       # keep an interior: a variable of its own, or one row over units inside their limits
            P0 = nb if dc else 2 * nb
            roomy = [q for q in L.g if L.gen[q, 9] + .03 * base < L.gen[q, 1] < L.gen[q, 8] - .03 * base]
            nzr = [j for j in range(nx) if row[j]]
            own = len(used) < nz and row[nx + len(used)] and s['z'][len(used)][1] != s['z'][len(used)][2]
            if not own and (used or nz or len(nzr) >= len(roomy) or not all(j - P0 in roomy for j in nzr)):
                k = 'range'
        a, b = e.f(.005, .2), e.f(.005, .2)
        if k == 'loose':
            a, b = a + 50, b + 50
        if k == 'eq':
            used.append(i)
            a = b = 0.0
        s['A'].append(row)
        s['l'].append(None if k in ('hi', 'free') else v - a if k == 'eq' else round(v - a, 6))
        s['u'].append(None if k in ('lo', 'free') else v + b if k == 'eq' else round(v + b, 6))
    if d.chance(.7) or not m:
        nw = d.i(1, 3)
        e = d.cells(200)
        N, dd, rh, kk, mm, Cw = [], [], [], [], [], []
        for _ in range(nw):
            row = [0.0] * (nx + nz)
            for _ in range(e.i_(1, 3)):
                row[e.pick(hot) if e.chance(.85) else e.i_(0, nx - 1)] = e.c(-2, 2, 2) or 1.0
            for j in range(nz):
                if e.chance(.5):
                    row[nx + j] = e.c(-2, 2, 2) or -1.0
            N.append(row)
            q = 1 if dc else e.pick([1, 1, 2])
            dd.append(q)
            rh.append(round(float(np.dot(row, xs)) + e.c(-.5, .5, 3), 4) if e.chance(.7) else e.c(-1, 1, 3))
            kk.append(0.0 if q == 1 else e.pick([0.0, .05, .3]))
            mm.append(e.pick([1.0, 1.0, 2.5, .5] + ([-1.5] if q == 1 else [])))
            Cw.append(e.f(0, 800, 1) if q == 2 else e.c(-600, 600, 1))
        H = None
        if e.chance(.7):
            H = [[0.0] * nw for _ in range(nw)]
            for i in range(nw):
                H[i][i] = e.f(0, 900, 1) if e.chance(.8) else 0.0
            for i in range(nw):
                for j in range(i):
                    if e.chance(.5):
                        H[i][j] = H[j][i] = round(e.c(-.5, .5, 2) * min(H[i][i], H[j][j]) / max(nw - 1, 1), 2)
        if e.chance(.1):
            Cw, H = [0.0] * nw, None
        p = not dc or e.chance(.7)
        if not p:
            dd, rh, kk, mm = [1] * nw, [0.0] * nw, [0.0] * nw, [1.0] * nw
        s['uc'] = {'N': N, 'dd': dd, 'rh': rh, 'kk': kk, 'mm': mm, 'Cw': Cw, 'H': H, 'fparm': p}
    for j in range(nz):     # unbounded variables with a linear price would have no optimum
        if s['uc'] and (s['z'][j][1] is None or s['z'][j][2] is None) and any(r[nx + j] for r in s['uc']['N']):
            s['z'][j][1] = s['z'][j][0] - 1.0 if s['z'][j][1] is None else s['z'][j][1]
            s['z'][j][2] = s['z'][j][0] + 1.0 if s['z'][j][2] is None else s['z'][j][2]
    e = d.cells(20)
    s['via'] = e.pick(['fields', 'fields', 'args', 'arrays', 'file', 'callback'])
    s['wide'] = dc and e.chance(.4)
    s['fmt'] = e.pick(['csr', 'csr', 'csc'])
    s['stray'] = s['wide'] and s['uc'] is not None and e.chance(.5)
    s['defz'] = e.chance(.3)
    s['defl'] = e.chance(.3)
    s['alg'] = e.pick([200, 200, 250]) if dc else e.pick([560, 560, 565])
    s['tight'] = e.chance(.6)
    s['kind'] = 0 if dc else e.pick([0, 0, 1, 2])
    s['run'] = e.b()
    return s


def widen(s, M):
    """DC columns [Va Pg z] spread over the AC columns [Va Vm Pg Qg z]."""
    nb, ng = len(s['net']['ppc']['bus']), len(s['net']['ppc']['gen'])
    M = np.asarray(M, float)
    z = np.zeros((len(M), nb))
    return np.hstack([M[:, :nb], z, M[:, nb:nb + ng], np.zeros((len(M), ng)), M[:, nb + ng:]])


def user(s):
    """The user data as arrays."""
    import scipy.sparse as sp
    u = {}
    n = len(s['A'][0]) if s['A'] else len(s['uc']['N'][0])
    inf = lambda v, w: np.array([w if a is None else a for a in v], float)
    shape = lambda M: getattr(sp, s['fmt'] + '_matrix')(widen(s, M) if s['wide'] else np.asarray(M, float))
    if s['A']:
        u['A'], u['l'], u['u'] = shape(s['A']), inf(s['l'], -INF), inf(s['u'], INF)
        if s['defl'] and not np.isfinite(u['l']).any():
            u['l'] = np.array([])
        elif s['defl'] and not np.isfinite(u['u']).any():
            u['u'] = np.array([])
    if s['uc']:
        c = s['uc']
        u['N'], u['Cw'] = shape(c['N']), np.array(c['Cw'], float)
        if c['fparm']:
            u['fparm'] = np.array([c['dd'], c['rh'], c['kk'], c['mm']], float).T
        if c['H'] is not None:
            u['H'] = sp.csr_matrix(np.array(c['H'], float))
        if s['stray']:      # a row over Vm and Qg that costs nothing
            nb, ng, nw = len(s['net']['ppc']['bus']), len(s['net']['ppc']['gen']), len(c['Cw'])
            row = np.zeros((1, n + nb + ng))
            row[0, nb:2 * nb] = 1
            row[0, 2 * nb + ng:2 * nb + 2 * ng] = -2
            u['N'] = getattr(sp, s['fmt'] + '_matrix')(np.vstack([u['N'].toarray(), row]))
            u['Cw'] = np.r_[u['Cw'], 0]
            if c['fparm']:
                u['fparm'] = np.vstack([u['fparm'], [1, .5, 0, 1]])
            if c['H'] is not None:
                u['H'] = sp.csr_matrix(sp.block_diag([u['H'], sp.csr_matrix((1, 1))]))
    if s['z']:
        z = np.array([[v, -INF if a is None else a, INF if b is None else b] for v, a, b in s['z']])
        if not s['defz'] or np.any(z[:, 0]):
            u['z0'] = z[:, 0]
        if not s['defz'] or np.isfinite(z[:, 1]).any():
            u['zl'] = z[:, 1]
        if not s['defz'] or np.isfinite(z[:, 2]).any():
            u['zu'] = z[:, 2]
    return u


def formulation(om, args):
    """A callback that adds the same things to the model itself."""
    from scipy.sparse import csr_matrix
    u, dc, nz = args
    o = om.get_ppc()['order']
    ob, og = o['bus']['status']['on'], o['gen']['status']['on'][o['gen']['e2i'].astype(int)]
    NB, NG = len(o['ext']['bus']), len(o['ext']['gen'])
    vs = ['Va', 'Pg'] if dc else ['Va', 'Vm', 'Pg', 'Qg']
    if dc:
        cols = np.r_[ob, NB + og]
    else:
        cols = np.r_[ob, NB + ob, 2 * NB + og, 2 * NB + NG + og]
    if nz:
        om.add_vars('z', nz, u.get('z0'), u.get('zl'), u.get('zu'))
        vs = vs + ['z']
        cols = np.r_[cols, (NB + NG) * (1 if dc else 2) + np.arange(nz)]
    if 'A' in u:
        om.add_constraints('usr', csr_matrix(u['A'].toarray()[:, cols]), u['l'], u['u'], vs)
    if 'N' in u:
        c = {'N': csr_matrix(u['N'].toarray()[:, cols]), 'Cw': u['Cw']}
        if 'H' in u:
            c['H'] = u['H']
        if 'fparm' in u:
            c.update(dd=u['fparm'][:, 0], rh=u['fparm'][:, 1], kk=u['fparm'][:, 2], mm=u['fparm'][:, 3])
        om.add_costs('usr', c, vs)
    return om


def run(s, case, u):
    """Returns (results, the objects that must not change)."""
    from pypower.api import runopf, opf, savecase
    k = dict(p15.TIGHT) if s['tight'] else {}
    if s['dc']:
        o = opts(PF_DC=1, OPF_ALG_DC=s['alg'], **k)
    else:
        o = opts(OPF_ALG=s['alg'], OPF_FLOW_LIM=s['kind'], **k)
    via = s['via']
    none = np.array([])
    if via in ('fields', 'file'):
        case = dict(case, **u)
        keep = snapshot(case)
        if via == 'file':
            d = tempfile.mkdtemp(prefix='p16')
            try:
                savecase(os.path.join(d, 'the_case.mat'), case)
                r = (runopf if s['run'] else opf)(os.path.join(d, 'the_case.mat'), o)
            finally:
                shutil.rmtree(d)
        else:
            r = (runopf if s['run'] else opf)(case, o)
    elif via == 'callback':
        from pypower.api import add_userfcn
        nz = len(s['z'])
        u2 = dict(u)
        if s['wide']:
            nb, ng = len(case['bus']), len(case['gen'])
            c = np.r_[np.arange(nb), 2 * nb + np.arange(ng), 2 * nb + 2 * ng + np.arange(nz)]
            u2 = {a: (b.tocsc()[:, c] if a in ('A', 'N') else b) for a, b in u.items()}
        if s['run']:
            add_userfcn(case, 'formulation', formulation, (u2, s['dc'], nz))
            keep = snapshot({a: b for a, b in case.items() if a != 'userfcn'})
            r = runopf(case, o)
            case = {a: b for a, b in case.items() if a != 'userfcn'}
        else:
            keep = snapshot(case)
            c = {}
            add_userfcn(c, 'formulation', formulation, (u2, s['dc'], nz))
            r = opf(case, c['userfcn'], o)
    else:
        keep = snapshot([case, u])
        g = [u.get('A'), u.get('l', none), u.get('u', none)]
        t = [u.get('N'), u.get('fparm', none), u.get('H'), u.get('Cw', none)]
        z = [u.get('z0', none), u.get('zl', none), u.get('zu', none)]
        args = g + [o] + (t + (z if s['z'] else []) if 'N' in u or s['z'] else [])
        if via == 'arrays':
            r = opf(case['baseMVA'], case['bus'], case['gen'], case['branch'], none, case['gencost'], *args)
        else:
            r = opf(case, *args)
        case = [case, u]
    expect(same(keep, case), 'input-modified', 'the data passed in were modified')
    return r


def grad_cost(c, x):
    if c is None:
        return np.zeros(len(x))
    return acopf.cstep(lambda z: acopf.user_cost(c, z)[None, :], x)[0]


def check(s):
    net, dc = s['net'], s['dc']
    ppc = net['ppc']
    case = gen.arr(ppc)
    u = user(s)
    res = run(s, case, u)
    ok = bool(res['success'])
    L = ref.Live(ppc)
    base = L.base
    nb, ng, nz = len(ppc['bus']), len(ppc['gen']), len(s['z'])
    c = s['uc']
    labels = base_labels(net, L) + ['via=' + s['via'], 'ok=%d' % ok, 'rows=%d' % len(s['A']), 'nz=%d' % nz, 'cost=%d' % (c is not None)]
    A = np.array(s['A'], float).reshape(len(s['A']), (nb + ng) * (1 if dc else 2) + nz)
    l = np.array([-INF if v is None else v for v in s['l']])
    h = np.array([INF if v is None else v for v in s['u']])
    zl = np.array([-INF if v[1] is None else v[1] for v in s['z']])
    zu = np.array([INF if v[2] is None else v[2] for v in s['z']])
    nx = (nb + ng) * (1 if dc else 2)
    # user columns that exist in the model: (column, position among live variables)
    if dc:
        live = list(L.rows) + [nb + k for k in L.g]
    else:
        live = list(L.rows) + [nb + i for i in L.rows] + [2 * nb + k for k in L.g] + [2 * nb + ng + k for k in L.g]
    live = live + [nx + j for j in range(nz)]
    cl = dict(c, N=np.array(c['N'])[:, live]) if c else None
    if dc:
        P = dcopf.Problem(ppc)
        P.add_vars(zl, zu)
        for a, lo, hi in zip(A, l, h):
            P.row(a[live], lo, hi, ('usr', 0))
        if c:
            W = np.array(c['mm'])[:, None] * cl['N']
            r0 = np.array(c['mm']) * np.array(c['rh'])
            H = np.array(c['H']) if c['H'] is not None else np.zeros((len(W), len(W)))
            P.qd = P.qd + W.T @ H @ W
            P.lin = P.lin + W.T @ (np.array(c['Cw']) - H @ r0)
            P.const = .5 * r0 @ H @ r0 - np.array(c['Cw']) @ r0
    if s['stray']:
        labels.append('stray')
    if not ok:
        if not s['tight']:
            it = None
            if dc and P.feasible(.002):
                it = P.converges(sc=s['alg'] == 250, tol=1e-6)
                labels.append('failed-checked')
            elif not dc and L.n <= 4:
                it = p15.reference(ppc, L, s['kind'], 0, s['alg'] == 565, user=(zl, zu, A[:, live] if len(A) else None, l, h, cl))
                labels.append('failed-checked')
            expect(it is None, 'no-convergence', 'an independent interior point iteration solves the problem in %s steps' % it)
        return labels + ['failed']
    z = np.asarray(res['var']['val']['z']) if nz else np.zeros(0)
    expect(z.shape == (nz,), 'z-size', lambda: 'z has shape %s' % (z.shape,))
    x = np.zeros(nx + nz)
    D = math.pi / 180
    x[L.rows] = res['bus'][L.rows, 8] * D
    if dc:
        x[[nb + k for k in L.g]] = res['gen'][L.g, 1] / base
    else:
        x[[nb + i for i in L.rows]] = res['bus'][L.rows, 7]
        x[[2 * nb + k for k in L.g]] = res['gen'][L.g, 1] / base
        x[[2 * nb + ng + k for k in L.g]] = res['gen'][L.g, 2] / base
    x[nx:] = z
    X = 1 + max(np.abs(res['x']).max(), np.abs(x).max(), *([] if dc else [acsol.slack_size(ppc, res, L, s['kind'])]))
    v = A @ x if len(A) else np.zeros(0)
    X = 1 + max([X] + [abs(a) for a in list(l - v) + list(h - v) + list(zl - z) + list(zu - z) if abs(a) < 1e9])
    ft = 1e-8 if s['tight'] else 5e-6
    tol = 1.5 * ft * X * (2 if dc else 1) + 1e-7
    for i in range(len(A)):
        expect(l[i] - tol <= v[i] <= h[i] + tol, 'user-constraint', lambda: 'row %d: %.8g outside [%.8g, %.8g]' % (i, v[i], l[i], h[i]))
    for j in range(nz):
        expect(zl[j] - tol <= z[j] <= zu[j] + tol, 'user-bound', lambda: 'z%d = %.8g outside [%.8g, %.8g]' % (j, z[j], zl[j], zu[j]))
    # the cost
    uc = float(acopf.user_cost(c, x)) if c else 0.0
    if c:
        got = res['cost']['usr']
        close(np.ravel(got), [uc], 1e-7 * (1 + abs(uc) + 600 * np.abs(x).max()), 'user-cost', 'user cost reported for the solution')
    # multipliers of the user rows and bounds
    if len(A):
        ml, mu = [np.asarray(res['lin']['mu'][a]['usr']) for a in 'lu']
        expect(ml.shape == mu.shape == (len(A),), 'mu-size', lambda: '%s %s' % (ml.shape, mu.shape))
    else:
        ml = mu = np.zeros(0)
    if nz:
        zml, zmu = [np.asarray(res['var']['mu'][a]['z']) for a in 'lu']
    else:
        zml = zmu = np.zeros(0)
    G = grad_cost(c, x)
    if len(A):
        G = G + A.T @ (mu - ml)
    lam = res['bus'][L.rows, 13:15]
    scale = max(1.0, np.abs(lam).max()) * base
    M = max([scale, res['bus'][L.rows, 15:17].max()] + list(ml) + list(mu) + list(zml) + list(zmu))
    if M > 1e8:
        return labels + ['degenerate']
    ct = (1e-8 if s['tight'] else 1e-6) * 1e4
    comp = 3 * ct * X + 1e-2
    gt = 1e-8 if s['tight'] else 1e-6
    lost = 0.0 if dc else acsol.LOST
    Gz = G[nx:] + zmu - zml
    tz = (2e-4 * M if dc else 2 * gt * (1e4 + M)) + lost * (2 + np.abs(A).sum(axis=0)[nx:] if len(A) else 2) + 1e-6 * M
    for j in range(nz):
        expect(abs(Gz[j]) <= np.ravel(tz + np.zeros(nz))[j], 'z-kkt', lambda: 'z%d: gradient %.6g, multipliers %.6g %.6g' % (j, G[nx + j], zml[j], zmu[j]))
    for nm, m, sl in (('row lower', ml, v - l), ('row upper', mu, h - v), ('z lower', zml, z - zl), ('z upper', zmu, zu - z)):
        for i in range(len(m)):
            expect(m[i] >= -1e-9, 'mu-sign', lambda: '%s %d: %r' % (nm, i, m[i]))
            if dc:
                expect(min(m[i] / M, max(sl[i], 0)) < 2e-3, 'user-slack', lambda: '%s %d: multiplier %.6g with slack %.6g' % (nm, i, m[i], sl[i]))
            else:
                expect(m[i] * max(sl[i], 0) <= comp or m[i] == 0, 'user-slack', lambda: '%s %d: multiplier %.6g with slack %.6g' % (nm, i, m[i], sl[i]))
    rows = list(L.rows)
    if dc:
        dcopf.check_solution(P, res, np.concatenate([x[live]]), tol=ft, f=res['f'])
        dcopf.check_multipliers(P, res, extra_va=G[rows], extra_pg=G[[nb + k for k in L.g]] / base)
    else:
        L, an, va, vm = acsol.feasible(ppc, res, tol, s['kind'])
        f = acsol.cost(ppc, res, L) + uc
        sl = acsol.max_slope(ppc, res, L)
        close(res['f'], f, 1e-5 * (1 + abs(f)) + (1e-5 + tol) * sl * base * 3 + 1e-7 * np.abs(G).sum(), 'cost', 'objective vs cost of the dispatch')
        xa = np.abs(A).sum(axis=0) if len(A) else np.zeros(nx + nz)
        acsol.kkt(ppc, res, L, an, va, vm, gt, comp, s['kind'], extra=M, extra_va=G[rows], extra_vm=G[[nb + i for i in rows]],
                  extra_p={k: G[2 * nb + k] / base for k in L.g}, extra_q={k: G[2 * nb + ng + k] / base for k in L.g},
                  lost=xa.max(), tol_va=lost * xa[rows], tol_vm=lost * xa[[nb + i for i in rows]])
    # what the user passed comes back with the results
    if s['via'] == 'fields':
        for k in u:
            if k in ('A', 'N') :
                close(dense(res[k]), dense(u[k]), 0, 'restored', k)
    if c and abs(uc) > 1e-6:
        labels += ['nontrivial', 'cost-active']
    if len(A) and max(ml.max(), mu.max()) > 1e-3 * base or nz and max(zml.max(), zmu.max()) > 1e-3 * base:
        labels += ['nontrivial', 'binding']
    return sorted(set(labels))


SUBS = [Sub('dc', gen.spec_strategy(make, 'dc', size=4200), check, 300, 12000),
        Sub('ac', gen.spec_strategy(make, 'ac', size=4200), check, 200, 8000)]
