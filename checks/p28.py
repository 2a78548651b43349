"""P28  Capability, dispatchable-load, angle and cost constraints mean what they say."""
import math
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, acsol, dcopf
from vlib.util import opts, snapshot, same

ID = 'P28'
RULE = ('random generator, branch and cost tables (curves that are redundant, flat, point-like; loads of either power factor; one-sided, absent and wide angle limits; '
        'convex piecewise linear costs of any number of points), and candidate points around the boundary of what the tables describe; oracle: the geometric '
        'description itself. Non-trivial: constraints were built and candidate points fell on both sides')
D2R = math.pi / 180


def rows(A):
    return A.toarray() if hasattr(A, 'toarray') else np.asarray(A, float)


# -------------------------------------------------------------- capability curves
def unit(e, whole):
    """[Pmin, Pmax, Qmin, Qmax, Pc1, Pc2, Qc1min, Qc1max, Qc2min, Qc2max]"""
    nd = 0 if whole else 3
    f = lambda a, b: e.f(a, b, nd)
    pmin = f(-50, 60)
    pmax = pmin + f(1, 200)
    qmin = f(-150, 40)
    qmax = qmin + f(1, 200)
    m = e.pick(['none', 'none0', 'both', 'both', 'both', 'up', 'lo', 'flat', 'outside'])
    if m == 'none':
        return [pmin, pmax, qmin, qmax, 0, 0, 0, 0, 0, 0]
    pc1 = pmin + f(-20, 100)
    pc2 = pc1 + f(1, 150)
    if m == 'none0':
        return [pmin, pmax, qmin, qmax, pc1, pc1, qmin, qmax, qmin, qmax]
    if m == 'outside':
        return [pmin, pmax, qmin, qmax, pc1, pc2, qmin - 900, qmax + 900, qmin - 890, qmax + 890]
    q1x = qmax + f(-60, 40)
    q1n = qmin + f(-40, 60)
    q2x, q2n = q1x - f(0, 120), q1n + f(0, 120)
    if m == 'flat':
        q2x, q2n = q1x, q1n
    if m == 'up':
        q1n = q2n = qmin - f(0, 100)
    if m == 'lo':
        q1x = q2x = qmax + f(0, 100)
    return [pmin, pmax, qmin, qmax, pc1, pc2, q1n, q1x, q2n, q2x]


def cap_spec(d):
    ng = d.i(1, 6)
    whole = d.chance(.2)
    e = d.cells(60 * ng)
    u = [unit(e, whole) for _ in range(ng)]
    pts = [[e.f(-.3, 1.3, 3), e.f(-.5, 1.5, 3)] for _ in range(8)]
    return {'u': u, 'pts': pts, 'base': d.pick([1.0, 100.0, 10.0, 250.0]), 'int': whole and d.b(), 'off': d.chance(.2), 'mu': [e.f(-5, 5, 2) for _ in range(6 * ng)]}


def gen_table(u, integer=False, seed=0):
    g = np.zeros((len(u), 25))
    for k, r in enumerate(u):
        g[k, 0] = k
        g[k, 1], g[k, 2] = .5 * (r[0] + r[1]), .5 * (r[2] + r[3])
        g[k, 5:8] = [1, 100, 1]
        g[k, [9, 8, 4, 3]] = r[:4]
        g[k, 10], g[k, 11] = r[4:6]
        g[k, [12, 13, 14, 15]] = r[6:10]
    if integer and np.all(g == np.round(g)):
        g = g.astype(int)
    return g


def lines(r):
    """(upper, lower) value functions of the two sloped limits, or None."""
    pmin, pmax, qmin, qmax, a, b, q1n, q1x, q2n, q2x = r
    if a == b:
        return None
    return (lambda p: q1x + (p - a) * (q2x - q1x) / (b - a)), (lambda p: q1n + (p - a) * (q2n - q1n) / (b - a))


def check_cap(s):
    from pypower.makeApq import makeApq
    from pypower.hasPQcap import hasPQcap
    from pypower.update_mupq import update_mupq
    base, u = s['base'], s['u']
    ng = len(u)
    g = gen_table(u, s['int'])
    before = g.copy()
    hb, hu, hl = [np.asarray(x, bool).ravel() for x in (hasPQcap(g), hasPQcap(g, 'U'), hasPQcap(g, 'L'))]
    expect(np.array_equal(np.asarray(hasPQcap(g, 'B'), bool).ravel(), hb) and np.array_equal(hb, hu | hl), 'hasPQcap', 'both sides: %s, upper %s, lower %s' % (hb, hu, hl))
    Ah, uh, Al, ul, data = makeApq(base, g)
    expect(np.array_equal(before, g), 'modified', 'the generator table was changed')
    Ah, Al = rows(Ah), rows(Al)
    ih, il = [np.asarray(data[k]).ravel().astype(int) for k in ('ipqh', 'ipql')]
    expect(Ah.shape == (len(ih), 2 * ng) and Al.shape == (len(il), 2 * ng) and len(uh) == len(ih) and len(ul) == len(il), 'shapes',
           '%s %s %s %s' % (Ah.shape, Al.shape, len(uh), len(ul)))
    seen, n_in, n_out = False, 0, 0
    for k, r in enumerate(u):
        L = lines(r)
        need = (False, False)
        if L is not None:
            need = (L[0](r[1]) < r[3], L[1](r[1]) > r[2])
            clear = (abs(L[0](r[1]) - r[3]) > 1e-9, abs(L[1](r[1]) - r[2]) > 1e-9)
        else:
            clear = (True, True)
        for side, (nd, cl, has, idx) in enumerate(zip(need, clear, (hu, hl), (ih, il))):
            if cl:
                expect(has[k] == nd, 'hasPQcap', lambda: 'unit %d %s: %s side reported %s' % (k, r, 'upper' if side == 0 else 'lower', has[k]))
            expect((k in idx) == bool(has[k]) and np.sum(idx == k) <= 1, 'index', 'unit %d' % k)
        seen = seen or any(need)
        for a, b in s['pts']:
            P, Q = r[0] + a * (r[1] - r[0]), r[2] + b * (r[3] - r[2])
            for side, (A, ub, idx) in enumerate(((Ah, uh, ih), (Al, ul, il))):
                for j in np.flatnonzero(idx == k):
                    x = np.zeros(2 * ng)
                    x[k], x[ng + k] = P / base, Q / base
                    v = (A[j] @ x - ub[j]) * base
                    m = (Q - L[0](P)) if side == 0 else (L[1](P) - Q)      # outside by m MVAr
                    s_ = np.hypot(1, (r[9] - r[7] if side == 0 else r[8] - r[6]) / (r[5] - r[4]))
                    tol = 1e-9 * (1 + abs(P) + abs(Q) + max(map(abs, r)) * max(1, abs(P - r[4]) / (r[5] - r[4])))
                    expect(abs(v - m / s_) <= tol, 'half-plane', lambda: 'unit %d %s at (%g, %g): constraint value %g MVA, distance beyond the line %g' % (k, r, P, Q, v, m / s_))
                    n_in, n_out = n_in + (m < 0), n_out + (m > 0)
                    y = np.ones(2 * ng)
                    y[[k, ng + k]] = 0
                    expect(abs(A[j]) @ y == 0, 'other-unit', 'the constraint of unit %d involves another unit' % k)
    # shadow prices moved to the box limits: the gradient is the same
    gg = np.array(gen_table(u), float)
    mu = np.abs(s['mu'])
    gg[:, 21], gg[:, 22], gg[:, 23], gg[:, 24] = mu[:ng], 0, 0, mu[ng:2 * ng]
    sw = np.array(s['mu'][2 * ng:3 * ng]) < 0
    gg[sw, 21], gg[sw, 22] = 0, mu[:ng][sw]
    mh, ml = np.array(s['mu'][3 * ng:3 * ng + len(ih)]), np.array(s['mu'][4 * ng:4 * ng + len(il)])
    mup, muq = gg[:, 21] - gg[:, 22], gg[:, 23] - gg[:, 24]
    wp, wq = mup * base, muq * base
    for j, k in enumerate(ih):
        wp[k] -= mh[j] * Ah[j, k]
        wq[k] -= mh[j] * Ah[j, ng + k]
    for j, k in enumerate(il):
        wp[k] -= ml[j] * Al[j, k]
        wq[k] -= ml[j] * Al[j, ng + k]
    r = update_mupq(base, gg.copy(), mh.copy(), ml.copy(), data)
    expect(np.all(r[:, 21:25] >= 0), 'mu-sign', '%s' % r[:, 21:25])
    expect(np.allclose((r[:, 21] - r[:, 22]) * base, wp, atol=1e-9) and np.allclose((r[:, 23] - r[:, 24]) * base, wq, atol=1e-9), 'mu-total',
           lambda: 'P %s instead of %s, Q %s instead of %s' % ((r[:, 21] - r[:, 22]) * base, wp, (r[:, 23] - r[:, 24]) * base, wq))
    expect(np.all(r[:, 21] * r[:, 22] == 0) and np.all(r[:, 23] * r[:, 24] == 0), 'mu-split', '')
    expect(np.array_equal(r[:, :21], gg[:, :21]), 'mu-table', '')
    return ['nontrivial'] * bool(seen and n_in and n_out) + ['int'] * s['int'] + ['curves' if seen else 'no-curves']


# ------------------------------------------------------------------------- loads
def load_spec(d):
    ng = d.i(1, 7)
    e = d.cells(20 * ng)
    g = []
    for _ in range(ng):
        m = e.pick(['gen', 'gen', 'ind', 'cap', 'unity', 'store', 'zero', 'sync'])
        p = e.f(1, 90, 2)
        q = e.f(.5, 60, 2)
        f = e.f(0, 1, 3)
        if m in ('ind', 'cap', 'unity'):
            s = {'ind': -1, 'cap': 1, 'unity': 0}[m]
            g.append([-p, 0.0, min(s * q, 0), max(s * q, 0), -p * f, s * q * f])
        elif m == 'store':
            g.append([-p, p, -q, q, 0, 0])
        elif m == 'zero':
            g.append([0.0, 0.0, -q, 0, 0, 0])
        elif m == 'sync':
            g.append([0.0, 0.0, -q, q, 0, 0])
        else:
            g.append([e.pick([0, 0, p / 4]), p, -q * e.pick([0, 1]), q, p * f, 0])
    return {'g': g, 'base': d.pick([1.0, 100.0, 10.0]), 'pts': [[e.f(-1.2, .2, 3), e.f(-1.2, 1.2, 3)] for _ in range(5)]}


def check_load(s):
    from pypower.makeAvl import makeAvl
    from pypower.isload import isload
    base, G = s['base'], s['g']
    ng = len(G)
    g = np.zeros((ng, 21))
    g[:, 0] = range(ng)
    for k, r in enumerate(G):
        g[k, [9, 8, 4, 3, 1, 2]] = r
        g[k, 5:8] = [1, 100, 1]
    before = g.copy()
    il = np.asarray(isload(g)).ravel().astype(bool)
    want = np.array([r[0] < 0 and r[1] == 0 for r in G])
    expect(np.array_equal(il, want), 'isload', '%s for %s' % (il, G))
    A, l, u, ivl = makeAvl(base, g)
    expect(np.array_equal(before, g), 'modified', '')
    A, l, u, ivl = rows(A), np.asarray(l, float).ravel(), np.asarray(u, float).ravel(), np.asarray(ivl).ravel().astype(int)
    wl = [k for k in range(ng) if want[k] and (G[k][2] != 0 or G[k][3] != 0)]
    expect(list(ivl) == wl, 'which', 'constrained loads %s, described %s' % (list(ivl), wl))
    expect(A.shape == (len(wl), 2 * ng) and len(l) == len(u) == len(wl), 'shapes', '%s' % (A.shape,))
    expect(np.array_equal(l, u), 'equality', '%s %s' % (l, u))
    for j, k in enumerate(wl):
        p0, q0 = G[k][0], G[k][2] or G[k][3]
        y = np.ones(2 * ng)
        y[[k, ng + k]] = 0
        expect(abs(A[j]) @ y == 0, 'other-unit', 'load %d' % k)
        for a, b in s['pts']:
            x = np.zeros(2 * ng)
            x[k] = a * abs(p0) / base
            x[ng + k] = x[k] * q0 / p0
            expect(abs(A[j] @ x - l[j]) <= 1e-10 * (1 + abs(x).max()), 'on-line', lambda: 'load %d %s: constant power factor point %s violates by %g' % (k, G[k], x[[k, ng + k]], A[j] @ x - l[j]))
            off = b * abs(q0) / base
            x[ng + k] += off
            dist = abs(off) * abs(p0) / np.hypot(p0, q0)
            expect(abs(abs(A[j] @ x - l[j]) - dist) <= 1e-10 * (1 + abs(x).max()), 'off-line', lambda: 'load %d %s: %g pu off the power factor gives %g' % (k, G[k], dist, A[j] @ x - l[j]))
    return ['nontrivial'] * bool(wl) + ['loads-%d' % len(wl)]


# ------------------------------------------------------------------------- angles
def ang_spec(d):
    nb, nl = d.i(2, 8), d.i(1, 10)
    e = d.cells(16 * nl + 8 * nb + 10)
    br = []
    for _ in range(nl):
        f, t = e.i_(0, nb - 1), e.i_(0, nb - 1)
        if f == t:
            t = (f + 1) % nb
        lo = e.pick([0.0, -360.0, -400.0, 'x', 'x', 'x'])
        hi = e.pick([0.0, 360.0, 720.0, 'x', 'x', 'x'])
        lo = -e.f(.1, 60, 2) if lo == 'x' else lo
        if lo == -.1:
            lo = e.f(.5, 5, 2)          # limits need not enclose zero
        hi = max(e.f(.1, 60, 2), lo + .1) if hi == 'x' else hi
        if e.chance(.1) and lo < 0:
            hi = round(lo * .5, 2)
        br.append([f, t, lo, hi])
    return {'nb': nb, 'br': br, 'ign': d.chance(.15), 'va': [[e.f(-80, 80, 2) for _ in range(nb)] for _ in range(3)], 'd': [e.f(-.5, .5, 3) for _ in range(3)]}


def check_ang(s):
    from pypower.makeAang import makeAang
    nb, B = s['nb'], s['br']
    br = np.zeros((len(B), 13))
    br[:, 3] = .1
    br[:, 10] = 1
    for k, r in enumerate(B):
        br[k, [0, 1, 11, 12]] = r
    before = br.copy()
    A, l, u, iang = makeAang(100.0, br, nb, opts(OPF_IGNORE_ANG_LIM=s['ign']))
    expect(np.array_equal(before, br), 'modified', '')
    A, l, u, iang = rows(A), np.asarray(l, float).ravel(), np.asarray(u, float).ravel(), np.asarray(iang).ravel().astype(int)
    want = [] if s['ign'] else [k for k, r in enumerate(B) if (r[2] != 0 and r[2] > -360) or (r[3] != 0 and r[3] < 360)]
    expect(list(iang) == want, 'which', 'limited branches %s, described %s in %s' % (list(iang), want, B))
    expect(A.shape == (len(want), nb) and len(l) == len(u) == len(want), 'shapes', '%s' % (A.shape,))
    nin = nout = 0
    for j, k in enumerate(want):
        f, t, lo, hi = B[k]
        lo = -np.inf if lo == 0 or lo <= -360 else lo
        hi = np.inf if hi == 0 or hi >= 360 else hi
        for va in s['va']:
            for near in [None] + [x + dl for x in (lo, hi) if np.isfinite(x) for dl in s['d']]:
                v = np.array(va)
                if near is not None:
                    v[f] = v[t] + near
                df = v[f] - v[t]
                if min(abs(df - lo), abs(df - hi)) < 1e-7:
                    continue
                y = A[j] @ (v * D2R)
                got = l[j] <= y <= u[j]
                expect(got == (lo <= df <= hi), 'membership', lambda: 'branch %d %s: difference of %g degrees is %s' % (k, B[k], df, 'admitted' if got else 'refused'))
                nin, nout = nin + got, nout + (not got)
    return ['nontrivial'] * bool(nin and nout) + ['ignored'] * s['ign']


# -------------------------------------------------------------------------- costs
def cost_spec(d):
    ng = d.i(1, 4)
    q = d.chance(.4)
    e = d.cells(60 * ng + 10)
    rowsz = []
    for _ in range(ng * (2 if q else 1)):
        if e.chance(.3):
            rowsz.append(None)
            continue
        n = e.pick([2, 3, 3, 4, 5, 6])
        p = [e.f(-60, 40, 2)]
        for _ in range(n - 1):
            p.append(round(p[-1] + e.f(.5, 50, 2), 2))
        m = e.f(-20, 20, 2)
        c = [e.f(-500, 500, 1)]
        for i in range(n - 1):
            c.append(round(c[-1] + m * (p[i + 1] - p[i]), 4))
            m += e.f(.1, 10, 2)
        rowsz.append([v for pc in zip(p, c) for v in pc])
    return {'ng': ng, 'rows': rowsz, 'base': d.pick([1.0, 100.0, 10.0]), 'off': [d.i(0, 3), d.i(0, 3), d.i(0, 3)], 't': [e.f(-.4, 1.4, 3) for _ in range(5)],
            'dy': [e.f(-1, 1, 3) for _ in range(3)], 'spare': e.i_(0, 2)}


def check_cost(s):
    from pypower.makeAy import makeAy
    ng, base = s['ng'], s['base']
    w = 4 + max([len(r) for r in s['rows'] if r] + [3]) + s['spare']
    gc = np.zeros((len(s['rows']), w))
    for k, r in enumerate(s['rows']):
        if r is None:
            gc[k, :7] = [2, 0, 0, 3, .1, 2, 3]
        else:
            gc[k, :4] = [1, 5, 6, len(r) // 2]
            gc[k, 4:4 + len(r)] = r
    before = gc.copy()
    pg = 1 + s['off'][0]
    qg = pg + ng + s['off'][1]
    yb = qg + ng + s['off'][2]
    A, b = makeAy(base, ng, gc, pg, qg, yb)
    expect(np.array_equal(before, gc), 'modified', '')
    A, b = rows(A), np.asarray(b, float).ravel()
    pwl = [k for k, r in enumerate(s['rows']) if r is not None]
    m = sum(len(s['rows'][k]) // 2 - 1 for k in pwl)
    n = yb - 1 + len(pwl)
    expect(A.shape == (m, n) and len(b) == m, 'shapes', '%s instead of %s' % (A.shape, (m, n)))
    nin = nout = 0
    # a comfortable point: every cost variable far above its curve
    x = np.zeros(n)
    for j, k in enumerate(pwl):
        r = np.array(s['rows'][k])
        x[(pg if k < ng else qg) - 1 + (k % ng)] = r[0] / base
        x[yb - 1 + j] = 1e6
    for j, k in enumerate(pwl):
        r = np.array(s['rows'][k])
        p, c = r[0::2], r[1::2]
        for t in s['t']:
            P = p[0] + t * (p[-1] - p[0])
            f = max(c[i] + (P - p[i]) * (c[i + 1] - c[i]) / (p[i + 1] - p[i]) for i in range(len(p) - 1))
            for dy in s['dy'] + [50 * v for v in s['dy']]:
                if abs(dy) < 1e-3:
                    continue
                z = x.copy()
                z[(pg if k < ng else qg) - 1 + (k % ng)] = P / base
                z[yb - 1 + j] = f + dy
                got = bool(np.all(A @ z <= b))
                expect(got == (dy > 0), 'membership', lambda: 'cost row %d %s at %g MW: cost variable %g, curve %g: %s' % (k, list(r), P, f + dy, f, 'admitted' if got else 'refused'))
                nin, nout = nin + got, nout + (not got)
    return ['nontrivial'] * bool(nin and nout) + ['q-costs'] * (len(s['rows']) > ng)


# -------------------------------------------------------------- the whole OPF model
def model_spec(d, dc):
    net = gen.draw_net(d, nb_max=6, stress=1)
    if dc:
        dcopf.add_dcopf(d, net)
    else:
        acopf.add_opf(d, net, tight=.5, pqcap=.6, disp=.6, qcost=.4, angle=.6)
    return {'net': net, 'dc': dc, 'kicks': [[d.i(0, 999), d.cf(-1, 1, 4), d.i(0, 3)] for _ in range(24)], 'ign': d.chance(.1)}


def check_model(s):
    from pypower.opf_setup import opf_setup
    from pypower.ext2int import ext2int
    from pypower.loadcase import loadcase
    ppc = s['net']['ppc']
    dc = s['dc']
    L = ref.Live(ppc)
    base = L.base
    q = ext2int(loadcase(gen.arr(ppc)))
    om = opf_setup(q, opts(PF_DC=dc, OPF_IGNORE_ANG_LIM=s['ign']))
    nb, ng = L.n, len(L.g)
    x0, lo, hi = om.getv()
    A, l, u = om.linear_constraints()
    nx = len(x0)
    A, l, u = (rows(A), l, u) if A is not None else (np.zeros((0, nx)), np.zeros(0), np.zeros(0))
    expect(len(lo) == nx and len(hi) == nx and A.shape[1] == nx and len(l) == len(u) == A.shape[0], 'shapes', '%s %s' % (A.shape, nx))
    vv, ll, _, _ = om.get_idx()
    keep = np.ones(len(l), bool)
    if dc:
        keep[ll['i1']['Pmis']:ll['iN']['Pmis']] = False
    r = q['order']
    on = sorted(L.g)
    units = [on[i] for i in np.asarray(r['gen']['e2i'], int)]
    g, gc = ppc['gen'], ppc['gencost']
    nG = len(g)
    iv = lambda n: np.arange(vv['i1'][n], vv['iN'][n]) if n in vv['i1'] else np.arange(0)
    Va, Vm, Pg, Qg, Y = iv('Va'), iv('Vm'), iv('Pg'), iv('Qg'), iv('y')
    expect(len(Va) == nb and len(Pg) == ng and len(Qg) == (0 if dc else ng) and len(Vm) == (0 if dc else nb), 'sizes', '')
    curves = [(k, w) for w in range(2 if len(gc) == 2 * nG and not dc else 1) for k, n in enumerate(units) if gc[n + w * nG][0] == 1 and gc[n + w * nG][3] > 2]
    expect(len(Y) == len(curves), 'sizes', '%d cost variables for %d curves' % (len(Y), len(curves)))
    va0 = dcopf.point(L)[0] if dc else np.array(s['net']['sol']['va'])[L.rows] * D2R
    x = np.zeros(nx)
    x[Va] = va0
    if not dc:
        x[Vm] = np.array(s['net']['sol']['vm'])[L.rows]
    for k, n in enumerate(units):
        x[Pg[k]] = g[n][1] / base
        if not dc:
            x[Qg[k]] = g[n][2] / base

    def pwl(c, v):
        n = int(c[3])
        p, f = c[4:4 + 2 * n:2], c[5:5 + 2 * n:2]
        return max(f[i] + (v - p[i]) * (f[i + 1] - f[i]) / (p[i + 1] - p[i]) for i in range(n - 1))

    if dc:
        B, Bf, Pf, Pb = L.dc()

    def slack(x):
        """Smallest margin (per unit, radians, or $ per $) by which the point lies inside what the tables say, and a name."""
        m = [(0.0 - abs(x[Va[i]] - va0[i]), 'ref') for i in L.refs]
        m = [(-v[0] * -1, 'ref') for v in m if v[0] < -1e-9]
        for i, k in enumerate(L.rows):
            b = ppc['bus'][k]
            if not dc:
                m += [(b[11] - x[Vm[i]], 'vmax'), (x[Vm[i]] - b[12], 'vmin')]
        for k, n in enumerate(units):
            p = x[Pg[k]]
            m += [(g[n][8] / base - p, 'pmax'), (p - g[n][9] / base, 'pmin')]
            if not dc:
                y = x[Qg[k]]
                m += [(g[n][3] / base - y, 'qmax'), (y - g[n][4] / base, 'qmin')]
                m += [(b / base - a @ np.array([p, y]), 'cap') for a, b, _ in acsol.cap_rows(g[n])]
                if acsol.is_load(g[n]) and (g[n][3] or g[n][4]):
                    off = abs(y - p * acsol.qlim(g[n]) / g[n][9])
                    if off > 1e-9:
                        m.append((-off, 'pf'))
        for k, f, t in zip(L.br, L.F, L.T):
            b = ppc['branch'][k]
            dv = x[Va[f]] - x[Va[t]]
            if not s['ign']:
                if b[11] != 0 and b[11] > -360:
                    m.append((dv - b[11] * D2R, 'angmin'))
                if b[12] != 0 and b[12] < 360:
                    m.append((b[12] * D2R - dv, 'angmax'))
        if dc:
            fl = Bf @ x[Va] + Pf
            for j, k in enumerate(L.br):
                rt = ppc['branch'][k][5]
                if 0 < rt < 1e10:
                    m.append((rt / base - abs(fl[j]), 'rate'))
        for j, (k, w) in enumerate(curves):
            c = gc[units[k] + w * nG]
            f = pwl(c, x[(Qg if w else Pg)[k]] * base)
            m.append(((x[Y[j]] - f) / (1 + abs(f)), 'cost'))
        return min(m) if m else (1.0, 'none')

    def member(x, t):
        y = A @ x
        e = t * (1 + np.abs(A) @ np.abs(x))
        return bool(np.all((y >= l - e)[keep]) and np.all((y <= u + e)[keep]) and np.all(x >= lo - t * (1 + abs(x))) and np.all(x <= hi + t * (1 + abs(x))))

    for j, (k, w) in enumerate(curves):
        f = pwl(gc[units[k] + w * nG], x[(Qg if w else Pg)[k]] * base)
        x[Y[j]] = f + .01 * (1 + abs(f))
    inside, outside, names = 0, 0, set()
    for i, v, mode in [[0, 0, 0]] + s['kicks']:
        z = x.copy()
        if v:
            i = i % nx
            z[i] += v * (.02 if mode == 0 else .15 if mode == 1 else .6 if mode == 2 else 2) * (1 if i not in Y else 1 + abs(z[i]))
            # follow up: what moves along with this variable
            for k, n in enumerate(units):
                if not dc and acsol.is_load(g[n]) and (g[n][3] or g[n][4]) and i == Pg[k] and mode != 1:
                    z[Qg[k]] = z[Pg[k]] * acsol.qlim(g[n]) / g[n][9]
            for j, (k, w) in enumerate(curves):
                if i not in Y:
                    f = pwl(gc[units[k] + w * nG], z[(Qg if w else Pg)[k]] * base)
                    z[Y[j]] = f + .01 * (1 + abs(f))
        sl, name = slack(z)
        if abs(sl) < 1e-6:
            continue
        got = member(z, 1e-9)
        expect(got == (sl > 0), 'membership', lambda: 'a point %s by %g (%s) is %s by the OPF model' % ('inside' if sl > 0 else 'outside', abs(sl), name, 'admitted' if got else 'refused'))
        inside, outside = inside + got, outside + (not got)
        if not got:
            names.add('out-' + name)
    return ['nontrivial'] * bool(inside and outside) + sorted(names)


SUBS = [
    Sub('cap', gen.spec_strategy(cap_spec, size=600), check_cap, 400, 20000),
    Sub('load', gen.spec_strategy(load_spec, size=300), check_load, 400, 20000),
    Sub('ang', gen.spec_strategy(ang_spec, size=400), check_ang, 400, 20000),
    Sub('cost', gen.spec_strategy(cost_spec, size=500), check_cost, 400, 20000),
    Sub('acmodel', gen.spec_strategy(model_spec, False), check_model, 400, 12000),
    Sub('dcmodel', gen.spec_strategy(model_spec, True), check_model, 400, 12000),
]
