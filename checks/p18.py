"""P18  Cost functions are evaluated and converted faithfully."""
import copy
from fractions import Fraction as Fr
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen
from vlib.util import close

ID = 'P18'
RULE = ('random gencost tables mixing polynomial rows (1-6 coefficients) and piecewise linear rows (2-6 points, any slopes), any padding, output '
        'levels inside, at and beyond the breakpoints; oracle: the definitions in exact rational arithmetic; non-trivial = at least two rows '
        'of different kind or order')


def draw_rows(d, poly_only=False):
    ng = d.i(0 if d.chance(.05) else 1, 5)
    npad = d.pick([0, 0, 2, 3])
    rows = []
    for _ in range(ng):
        e = d.cells(60)
        if not poly_only and e.chance(.5):
            n = 2 + e.i_(0, 4)
            x = e.c(-100, 60, 2)
            pts = []
            for k in range(n):
                pts += [round(x, 3), e.c(-500, 3000, 2)]
                x += e.f(.5, 60, 2)
            rows.append([1, e.f(0, 50, 1), e.f(0, 50, 1), n] + pts)
        else:
            n = 1 + e.i_(0, 5)
            co = []
            for k in range(n):
                deg = n - 1 - k
                co.append(e.c(-10, 20, 3) * 10.0 ** (-max(0, deg - 1) * 1.0) if e.chance(.85) else 0.0)
            rows.append([2, e.f(0, 50, 1), e.f(0, 50, 1), n] + co)
    w = max([len(r) for r in rows] + [6]) + npad
    pad = d.pick([0.0, 0.0, 7.5])
    return [r + [pad if r[0] == 2 or pad == 0 else 0.0] * (w - len(r)) for r in rows]


def level(e, row):
    n = int(row[3])
    if row[0] == 1 and e.chance(.5):
        k = e.i_(0, n - 1)
        return row[4 + 2 * k]              # a breakpoint
    lo, hi = (row[4], row[4 + 2 * (n - 1)]) if row[0] == 1 else (-100, 100)
    return e.c(lo - 40, hi + 40, 3)


def make(d):
    rows = draw_rows(d)
    ncol = d.i(1, 3)
    e = d.cells(8 * len(rows) * ncol + 8)
    return {'rows': rows, 'pg': [[level(e, r) for _ in range(ncol)] for r in rows], 'matrix': d.chance(.3),
            'reorder': d.cells(12).perm(len(rows))}


def F(x):
    return Fr(float(x))


def cost(row, x, der=0):
    """Exact value (der 0) of a cost row; derivatives for polynomials."""
    n = int(row[3])
    x = F(x)
    if int(row[0]) == 2:
        co = [F(a) for a in row[4:4 + n]]
        for _ in range(der):
            m = len(co)
            co = [c * (m - 1 - i) for i, c in enumerate(co[:-1])] if m > 1 else [Fr(0)]
        v = Fr(0)
        for c in co:
            v = v * x + c
        return v
    p = [F(a) for a in row[4:4 + 2 * n:2]]
    c = [F(a) for a in row[5:5 + 2 * n:2]]
    k = 0
    while k < n - 2 and x >= p[k + 1]:
        k += 1
    return c[k] + (c[k + 1] - c[k]) / (p[k + 1] - p[k]) * (x - p[k])


def mag(row, x):
    n = int(row[3])
    if int(row[0]) == 2:
        return sum(abs(a) * max(1.0, abs(x)) ** (n - 1 - i) for i, a in enumerate(row[4:4 + n])) + 1
    return sum(abs(a) for a in row[5:5 + 2 * n:2]) * (1 + abs(x)) + 1


def check(spec):
    from pypower.totcost import totcost
    from pypower.polycost import polycost
    rows = spec['rows']
    if not rows:
        return ['empty']
    g = np.array(rows, float)
    pg = np.array(spec['pg'], float)
    g0, p0 = g.copy(), pg.copy()
    ref = np.array([[float(cost(r, x)) for x in xs] for r, xs in zip(rows, spec['pg'])])
    tol = 1e-11 * np.array([[mag(r, x) for x in xs] for r, xs in zip(rows, spec['pg'])])
    cols = [totcost(g, pg[:, j]) for j in range(pg.shape[1])]
    for j, v in enumerate(cols):
        close(v, ref[:, j], tol[:, j], 'totcost', 'totcost')
    if spec['matrix']:
        close(totcost(g, pg), ref, tol, 'totcost', 'totcost of a matrix')
    # a row's cost depends on that row only
    pr = spec['reorder']
    close(totcost(g[pr], pg[pr, 0]), ref[pr, 0], tol[pr, 0], 'totcost', 'totcost of permuted rows')
    for i in range(len(rows)):
        close(totcost(g[[i]], pg[[i], 0]), ref[[i], 0], tol[[i], 0], 'totcost', 'totcost of one row')
    ip = [i for i, r in enumerate(rows) if r[0] == 2]
    if ip:
        for der in (0, 1, 2, 3):
            v = polycost(g[ip], pg[ip, 0], der)
            r = np.array([float(cost(rows[i], spec['pg'][i][0], der)) for i in ip])
            close(v, r, 30 * tol[ip, 0], 'polycost', 'derivative %d of polynomial costs' % der)
    expect(np.array_equal(g, g0) and np.array_equal(pg, p0), 'mutated', 'the arguments were modified')
    labels = ['rows=%d' % len(rows), 'kinds=%s' % sorted(set(int(r[0]) for r in rows))]
    if len(set((r[0], r[3]) for r in rows)) > 1:
        labels.append('nontrivial')
    return labels


def make_mod(d):
    rows = draw_rows(d)
    e = d.cells(8 * len(rows) * 3 + 16)
    t = e.pick(['SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X', None])
    if t in ('SCALE_X',):
        a = e.f(.2, 4, 3)
    else:
        a = e.c(-20, 30, 3)
    if e.chance(.15) and rows:
        w = [[float(round(v)) for v in r] for r in rows]
        if all(r[0] == 2 or all(r[i] + 2 <= r[i + 2] for i in range(4, 2 + 2 * int(r[3]), 2)) for r in w):
            rows = w
    return {'rows': rows, 'pg': [[level(e, r) for _ in range(3)] for r in rows], 'type': t, 'alpha': a}


def check_mod(spec):
    from pypower.modcost import modcost
    rows = spec['rows']
    if not rows:
        return ['empty']
    g = gen.ints({'gencost': np.array(rows, float)})['gencost']
    g0 = g.copy()
    a, t = spec['alpha'], spec['type']
    m = modcost(g, a) if t is None else modcost(g, a, t)
    t = t or 'SCALE_F'
    expect(np.array_equal(g, g0), 'mutated', 'gencost was modified')
    expect(m.shape == g.shape, 'modcost-shape', 'shape changed')
    close(m[:, :4], g[:, :4], 0, 'modcost-head', 'model, start-up, shut-down and number of data')
    for r, row, xs in zip(m.tolist(), rows, spec['pg']):
        for x in xs:
            v, tx = float(cost(row, x)), x
            if t == 'SCALE_F':
                v *= a
            elif t == 'SHIFT_F':
                v += a
            elif t == 'SCALE_X':
                tx = x * a
            else:
                tx = x + a
            nb = abs(x) + abs(tx) + abs(a) + 1
            tol = 1e-10 * (mag(row, nb) * (1 + abs(a)) + mag(r, nb))
            got = float(cost(r, tx))
            if row[0] == 1:
                # rounding may move a breakpoint across x: continuous, so only a slack in x matters
                n = int(row[3])
                s = max(abs((row[7 + 2 * k] - row[5 + 2 * k]) / (row[6 + 2 * k] - row[4 + 2 * k])) for k in range(n - 1))
                tol += 1e-11 * s * nb * (1 + abs(a)) * 10
            close(got, v, tol, 'modcost', '%s by %r of row %s at %r' % (t, a, row, x))
    labels = [t, 'kinds=%s' % sorted(set(int(r[0]) for r in rows))]
    if len(set((r[0], r[3]) for r in rows)) > 1 and a not in (0, 1):
        labels.append('nontrivial')
    return labels


def make_pwl(d):
    rows = draw_rows(d, True)
    e = d.cells(12 * len(rows) + 12)
    pmin, pmax = [], []
    for r in rows:
        lo = e.pick([0.0, 0.0, None, None, None])
        if lo is None:
            lo = e.c(-120, 80, 2)
        pmin.append(lo)
        pmax.append(round(lo + e.f(1, 150, 2), 3))
    return {'rows': rows, 'pmin': pmin, 'pmax': pmax, 'npts': e.pick([3, 2, 4, 5, 10, 21]),
            't': [[e.f(0, 1) for _ in range(2)] for _ in rows]}


def check_pwl(spec):
    from pypower.poly2pwl import poly2pwl
    rows = spec['rows']
    if not rows:
        return ['empty']
    n = spec['npts']
    if n == 2 and max(spec['pmin']) > 0:
        n = 3
    g = np.array(rows, float)
    g0 = g.copy()
    pmin, pmax = np.array(spec['pmin']), np.array(spec['pmax'])
    w = poly2pwl(g, pmin, pmax, n)
    expect(np.array_equal(g, g0), 'mutated', 'the polynomial cost was modified')
    expect(np.all(w[:, 0] == 1) and np.all(w[:, 3] == n), 'poly2pwl-head', 'MODEL/NCOST of the result: %s' % w[:, :4])
    close(w[:, 1:3], g[:, 1:3], 0, 'poly2pwl-head', 'start-up and shut-down costs')
    for r, row, lo, hi in zip(w, rows, pmin, pmax):
        x, y = r[4:4 + 2 * n:2], r[5:5 + 2 * n:2]
        ref = np.concatenate([[0.0], np.linspace(lo, hi, n - 1)]) if lo > 0 else np.linspace(lo, hi, n)
        close(x, ref, 1e-9 * (1 + abs(hi)), 'poly2pwl-x', 'break points')
        for a, b in zip(x, y):
            close(b, float(cost(row, a)), 1e-10 * mag(row, a), 'poly2pwl-y', 'cost at a break point')
    labels = ['npts=%d' % n]
    if len(rows) > 1:
        labels.append('nontrivial')
    return labels


def make_pq(d):
    ng = d.i(1, 5)
    e = d.cells(20 * ng + 30)
    k = e.pick([1, 2])
    rows = [[2, 0, 0, 2, i + e.f(0, .5), 100.0 + i] for i in range(k * ng)]
    on = [i for i in range(ng) if e.chance(.6)] if e.chance(.6) else None
    if on and e.chance(.4):
        on = on[::-1]
    return {'ng': ng, 'rows': rows, 'on': on}


def check_pq(spec):
    from pypower.pqcost import pqcost
    g = np.array(spec['rows'], float)
    ng, on = spec['ng'], spec['on']
    p, q = pqcost(g, ng) if on is None else pqcost(g, ng, np.array(on, int))
    on_ = list(range(ng)) if on is None else on
    close(p, g[:ng][on_], 0, 'pqcost', 'active power costs')
    if len(g) == ng:
        expect(np.size(q) == 0, 'pqcost', 'reactive costs of a case which has none')
    else:
        close(q, g[ng:][on_], 0, 'pqcost', 'reactive power costs')
    return ['nontrivial'] if ng > 1 else []


SUBS = [Sub('eval', gen.spec_strategy(make, size=600), check, 2400, 40000),
        Sub('mod', gen.spec_strategy(make_mod, size=600), check_mod, 2400, 40000),
        Sub('pwl', gen.spec_strategy(make_pwl, size=600), check_pwl, 1200, 20000),
        Sub('pq', gen.spec_strategy(make_pq, size=200), check_pq, 400, 4000)]
