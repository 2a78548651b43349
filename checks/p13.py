"""P13  The interior point solver returns optimal points."""
import contextlib
import copy
import io
import math
import re
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, mips
from vlib.util import close, same

ID = 'P13'
RULE = ('random convex LPs and QPs (feasible by construction, infeasible or unbounded by construction) with equalities, ranges, one-sided '
        'rows, fixed and free variables, and convex NLPs with nonlinear equality/inequality rows, through pips, qps_pips and qps_pypower '
        'in all their calling forms; oracle: first-order optimality certificate evaluated by the check (and infeasibility/unboundedness by '
        'construction); non-trivial = at least one binding constraint')
INF = float('inf')


def draw_lin(d, n, xs, fixed=.12):
    """Bounds and rows satisfied by the point xs."""
    e = d.cells(6 * n + 12)
    xmin, xmax = [], []
    for i in range(n):
        k = e.pick(['box', 'box', 'box', 'lo', 'up', 'free', 'fix', 'tight'])
        a, b = e.f(.05, 6), e.f(.05, 6)
        if k == 'fix' and e.chance(fixed * 4):
            a = b = 0.0
        if k == 'tight':
            a = 0.0 if e.chance(.5) else a
        lo, hi = round(xs[i] - a, 6), round(xs[i] + b, 6)
        if k == 'lo':
            hi = None
        if k == 'up':
            lo = None
        if k == 'free':
            lo = hi = None
        xmin.append(lo)
        xmax.append(hi)
    m = d.i(0, 4)
    A, l, u = [], [], []
    neq = 0
    for r in range(m):
        e = d.cells(3 * n + 12)
        row = [(e.f(.2, 3, 2) * (1 if e.b() else -1)) if e.chance(.7) else 0.0 for _ in range(n)]
        if not any(row):
            row[e.i_(0, n - 1)] = 1.5
        v = sum(a * x for a, x in zip(row, xs))
        k = e.pick(['range', 'lo', 'up', 'eq', 'range', 'free'])
        if k == 'eq' and neq >= n - 1:
            k = 'range'
        a, b = round(e.f(.02, 4), 4), round(e.f(.02, 4), 4)
        lo, hi = v - a, v + b
        if k == 'eq':
            lo = hi = v
            neq += 1
        if k == 'lo':
            hi = None
        if k == 'up':
            lo = None
        if k == 'free':
            lo = hi = None
        A.append(row)
        l.append(lo)
        u.append(hi)
    return A, l, u, xmin, xmax


def make_qp(d):
    n = d.i(1, 6)
    e = d.cells(4 * n)
    xs = [e.c(-3, 3, 3) for _ in range(n)]
    A, l, u, xmin, xmax = draw_lin(d, n, xs)
    H = None
    kind = d.pick(['qp', 'lp', 'qp', 'rank', 'diag'])
    if kind != 'lp':
        k = n if kind != 'rank' else max(1, n // 2)
        e = d.cells(2 * n * n + 2 * n + 4)
        if kind == 'diag':
            H = [[(e.f(.05, 8, 3) if i == j else 0.0) for j in range(n)] for i in range(n)]
        else:
            F = np.array([[e.c(-2, 2, 2) for _ in range(n)] for _ in range(k)])
            M = F.T @ F
            if kind == 'qp':
                M = M + .05 * np.eye(n)
            H = np.round((M + M.T) / 2, 6).tolist()
            if kind == 'rank':
                H = (F.T @ F).tolist()
    e = d.cells(2 * n + 20)
    c = [e.c(-10, 10, 2) for _ in range(n)]
    spec = {'n': n, 'kind': kind, 'A': A, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'H': H, 'c': c, 'xs': xs}
    # directions in which the objective is not bounded by H are bounded by a box
    if kind in ('lp', 'rank'):
        if e.chance(.85):
            for i in range(n):
                if xmin[i] is None:
                    xmin[i] = xs[i] - 20.0
                if xmax[i] is None:
                    xmax[i] = xs[i] + 20.0
    spec['bounded'] = kind in ('qp', 'diag') or all(a is not None and b is not None for a, b in zip(xmin, xmax))
    spec['infeas'] = None
    if e.chance(.12):
        spec['infeas'] = e.pick(['rows', 'bounds', 'rowbox'])
        g = e.f(.2, 5)
        if spec['infeas'] == 'rows':
            row = [e.c(-3, 3, 2) for _ in range(n)]
            row[0] = row[0] or 1.0
            v = e.c(-3, 3, 2)
            A += [row, row[:]]
            l += [v + g, None]
            u += [None, v]
        elif spec['infeas'] == 'bounds':
            xmin[0], xmax[0] = 1.0 + g, 1.0
        else:
            for i in range(n):
                xmin[i] = xmin[i] if xmin[i] is not None else -5.0
                xmax[i] = xmax[i] if xmax[i] is not None else 5.0
                if xmax[i] < xmin[i]:
                    xmax[i] = xmin[i]
            A.append([1.0] * n)
            l.append(sum(xmax) + g)
            u.append(None if e.chance(.5) else sum(xmax) + g)
    spec['via'] = e.pick(['pips', 'qps_pips', 'qps_pypower', 'qps_dict', 'pips_dict', 'qpsp_dict'])
    spec['sparse'] = e.pick(['csr', 'csc', 'csr', 'dense'])
    spec['sc'] = e.chance(.3)
    spec['x0'] = e.pick(['zero', 'none', 'near', 'far'])
    spec['verbose'] = e.pick([0, 0, 0, 1, 2, 3])
    spec['tol'] = e.pick([None, None, 1e-8, 1e-4])
    spec['cm'] = e.pick([None, None, 1e-3, 10.0])
    spec['max_it'] = e.pick([None, None, None, 150, 3, 0])
    spec['none'] = e.chance(.5)       # pass None for what is not there
    spec['off'] = [e.c(-1, 1, 3) for _ in range(n)]
    spec['omit'] = e.chance(.4)
    spec['big'] = e.pick([None, None, 1e10, 1e12])      # how an infinite limit is written
    spec['void'] = e.chance(.4)       # empty arrays instead of None
    return spec


def vec(v, none, sign):
    return np.array([none * sign if a is None else a for a in v], float)


def mat(M, fmt):
    import scipy.sparse as sp
    M = np.array(M, float)
    return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'dense': np.array}[fmt](M)


def opts(spec):
    o = {'verbose': spec['verbose']}
    if spec['tol']:
        o.update(feastol=spec['tol'], gradtol=spec['tol'], comptol=spec['tol'], costtol=spec['tol'])
    if spec['max_it'] is not None:
        o['max_it'] = spec['max_it']
    if spec['cm']:
        o['cost_mult'] = spec['cm']
    return o


def log_lines(text, hist, level):
    """With verbose = 2 the objective and conditions of every iterate are printed, with 3 also the reductions of the step."""
    rows = [r.split() for r in text.split('\n')]
    rows = [r for r in rows if re.match(r'\d+$', r[0] if r else '') and len(r) in (6, 7)]
    if level < 2:
        return expect(not rows, 'log', 'iterates are printed with verbose = %d' % level)
    expect([int(r[0]) for r in rows] == list(range(len(hist))), 'log', lambda: 'the iterates printed are %s' % [r[0] for r in rows])
    for r, h in zip(rows, hist):
        for v, key in ((r[1], 'obj'), (r[-4], 'feascond'), (r[-3], 'gradcond'), (r[-2], 'compcond'), (r[-1], 'costcond')):
            w = float(np.ravel(h[key])[0])
            expect(np.isclose(float(v), w, rtol=1e-4, atol=1e-12), 'log', lambda: '%s of iterate %s is printed as %s, is %r' % (key, r[0], v, w))
    for r, h in list(zip(rows, hist))[1:]:
        expect(len(r) == 7 and np.isclose(float(r[2]), h['stepsize'], rtol=1e-3), 'log', 'step size')


def certificate(x, f, lam, prob, spec, what=''):
    """First-order conditions of min f st eq, ineq, rows, bounds at x."""
    tol = spec['tol'] or 1e-6
    cm = spec['cm'] or 1.0
    A, l, u, xmin, xmax = prob['A'], prob['l'], prob['u'], prob['xmin'], prob['xmax']
    n = len(x)
    ml, mu, lo, up = (np.asarray(lam[k], float) for k in ('mu_l', 'mu_u', 'lower', 'upper'))
    expect(ml.shape == mu.shape == (len(A),) and lo.shape == up.shape == (n,), 'lambda-shape', 'shapes of the multipliers')
    allm = np.concatenate([ml, mu, lo, up, prob.get('eqm', np.zeros(0)), prob.get('iqm', np.zeros(0))])
    expect(bool(np.all(np.isfinite(allm))) and bool(np.all(np.isfinite(x))), 'finite', 'x or multipliers not finite')
    expect(np.all(ml >= 0) and np.all(mu >= 0) and np.all(lo >= 0) and np.all(up >= 0), 'lambda-sign', 'negative multiplier: %s' % allm)
    r = A @ x
    zs = np.concatenate([np.abs(u - r)[np.isfinite(u)], np.abs(r - l)[np.isfinite(l)],
                         np.abs(xmax - x)[np.isfinite(xmax)], np.abs(x - xmin)[np.isfinite(xmin)], prob.get('slack', np.zeros(0)), [0.0]])
    ftol = tol * (1 + max(np.abs(x).max(), zs.max() + 1)) * 1.01 + 1e-9
    expect(np.all(r <= u + ftol) and np.all(r >= l - ftol), 'rows', 'linear constraints violated: %s not in %s..%s' % (r, l, u))
    expect(np.all(x <= xmax + ftol) and np.all(x >= xmin - ftol), 'bounds', 'bounds violated: %s not in %s..%s' % (x, xmin, xmax))
    # stationarity
    G = prob['grad'] + A.T @ (mu - ml) + (up - lo) + prob.get('nlgrad', np.zeros(n))
    mm = np.abs(allm).max() if len(allm) else 0.0
    # multipliers below 1e-5 (before unscaling) of inactive constraints are set to zero
    dropped = 1e-5 / cm * (2 + np.abs(A).sum(axis=0) * 2 + prob.get('nlabs', np.zeros(n)))
    close(G, np.zeros(n), (tol * (1 / cm + mm) * 1.01 + dropped).max() * 1.5 + 1e-9, 'stationarity', what + ' gradient of the Lagrangian')
    # complementarity
    ctol = tol * (1 + np.abs(x).max()) / cm * 1.01 + 1e-9
    comp = 0.0
    for m, s in ((ml, r - l), (mu, u - r), (lo, x - xmin), (up, xmax - x)):
        expect(np.all(m[~np.isfinite(s)] == 0), 'complementarity', 'multiplier of an absent limit is not zero')
        f_ = np.isfinite(s)
        s, m = s[f_], m[f_]
        expect(np.all(m * np.maximum(s - ftol, 0) <= ctol * 100), 'complementarity',
               'multiplier %s of a limit with slack %s' % (m, s))
        expect(np.all(np.minimum(s, 0) * m >= -m * ftol), 'complementarity', 'violated')
    return bool(mm > 1e-3)


def check_qp(spec):
    from pypower.pips import pips
    from pypower.qps_pips import qps_pips
    from pypower.qps_pypower import qps_pypower
    n = spec['n']
    A_ = np.array(spec['A'], float).reshape(-1, n)
    l, u = vec(spec['l'], INF, -1), vec(spec['u'], INF, 1)
    xmin, xmax = vec(spec['xmin'], INF, -1), vec(spec['xmax'], INF, 1)
    H_ = np.zeros((n, n)) if spec['H'] is None else np.array(spec['H'], float)
    c = np.array(spec['c'], float)
    fmt = spec['sparse']
    via = spec['via']
    if via.startswith('pips') and fmt == 'dense':
        fmt = 'csr'
    A = mat(A_, fmt) if len(A_) else None
    H = mat(H_, fmt) if spec['H'] is not None else None
    x0 = {'zero': np.zeros(n), 'none': None, 'near': np.array(spec['xs']) + np.array(spec['off']) * .1,
          'far': np.array(spec['off']) * 30}[spec['x0']]
    if via.startswith('pips') and x0 is None:
        x0 = np.zeros(n)
    none = spec['none']
    al, au, axl, axu = l, u, xmin, xmax
    if none:
        al = None if not np.any(np.isfinite(l)) else l
        au = None if not np.any(np.isfinite(u)) else u
        axl = None if not np.any(np.isfinite(xmin)) else xmin
        axu = None if not np.any(np.isfinite(xmax)) else xmax
        if spec.get('void') and via.startswith('pips'):
            al, au, axl, axu = [np.zeros(0) if v is None else v for v in (al, au, axl, axu)]
    if spec.get('big'):
        al, au, axl, axu = [v if v is None else np.clip(v, -spec['big'], spec['big']) for v in (al, au, axl, axu)]
    if H is None and A is None and axl is None and axu is None:
        return ['empty']
    if A is None and not via.startswith('pips') and none:
        al = au = None
    opt = opts(spec)
    lp = H is None
    import scipy.sparse as sp
    Hs = sp.csr_matrix(H_)

    def f_fcn(x, hess=False):
        f = .5 * x @ H_ @ x + c @ x
        df = H_ @ x + c
        return (f, df, Hs) if hess else (f, df)

    if via == 'qps_pypower' or via == 'qpsp_dict':
        # solver options go into pips_opt there
        po = dict(opt)
        v = po.pop('verbose')
        mi = po.pop('max_it', None)
        opt = {'alg': 250 if spec['sc'] else (200 if spec['verbose'] else 0), 'verbose': v, 'pips_opt': po}
        if mi is not None:
            opt['max_it'] = mi
    else:
        if spec['sc'] or not spec.get('omit'):
            opt['step_control'] = spec['sc']
    d = {'A': A, 'l': al, 'u': au, 'xmin': axl, 'xmax': axu, 'x0': x0, 'opt': opt}
    if via == 'qpsp_dict' or via == 'qps_dict':
        d.update(H=H, c=c)
        if none:
            d = {k: v for k, v in d.items() if v is not None}
    before = copy.deepcopy(d)
    if via == 'pips':
        s = pips(f_fcn, x0, A, al, au, axl, axu, None, None, opt)
        x, f, ef, out, lam = s['x'], s['f'], s['eflag'], s['output'], s['lmbda']
    elif via == 'pips_dict':
        d['f_fcn'] = f_fcn
        before['f_fcn'] = f_fcn
        dd = {k: v for k, v in d.items() if v is not None}
        s = pips(dd)
        x, f, ef, out, lam = s['x'], s['f'], s['eflag'], s['output'], s['lmbda']
    elif via == 'qps_pips':
        x, f, ef, out, lam = qps_pips(H, c, A, al, au, axl, axu, x0, opt)
    elif via == 'qps_dict':
        x, f, ef, out, lam = qps_pips(d, None, None, None, None)
    elif via == 'qps_pypower':
        x, f, ef, out, lam = qps_pypower(H, c, A, al, au, axl, axu, x0, opt)
    else:
        x, f, ef, out, lam = qps_pypower(d)
    expect(same(d, before), 'mutated', 'the problem data or options given by the caller were modified')
    it = out['iterations']
    mi = 150 if spec['max_it'] is None else spec['max_it']
    expect(0 <= it <= mi, 'max-it', '%d iterations with a limit of %d' % (it, mi))
    labels = ['via=' + via, 'kind=' + spec['kind'], 'sc=%d' % spec['sc'], 'ok=%d' % bool(ef), 'infeas=%s' % spec['infeas']]
    feas_known = spec['infeas'] is None
    if not feas_known:
        if ef and np.abs(x).max() > 1e3:
            return labels          # ran away: the feasibility tolerance is relative to the size of x
        expect(not ef, 'false-success', 'an infeasible problem (%s) is reported as solved' % spec['infeas'])
        return labels + ['nontrivial']
    start = np.zeros(n) if x0 is None else np.array(x0, float)
    k, diff = mips.compare(lambda z, hh: mips.solve(f_fcn, None, lambda y, la, m, cm: H_ * cm, z, A_, l, u, xmin, xmax, spec['tol'] or 1e-6, mi,
                                                    spec['cm'] or 1.0, spec['sc'], hist=hh), start, out['hist'])
    expect(diff is None, 'history', diff)
    labels.append('compared=%d' % min(k, 5))
    if not ef:
        it = mips.robust(lambda z, t: mips.solve(f_fcn, None, lambda y, la, m, cm: H_ * cm, z, A_, l, u, xmin, xmax, t, mi,
                                              spec['cm'] or 1.0, spec['sc']), np.zeros(n) if x0 is None else x0, min(40, mi), spec['tol'] or 1e-6)
        expect(it is None or it + 2 > mi or not mips.interior(A_, l, u, xmin, xmax, spec['xs']), 'not-solved', 'an independent implementation of the method solves this in %s iterations; got: %s in %d' %
               (it, out['message'], out['iterations']))
        labels.append('ref-ok=%s' % (it is not None))
    if not ef:
        return labels
    close(f, .5 * x @ H_ @ x + c @ x, 1e-8 * (1 + abs(f)), 'f', 'objective value')
    act = certificate(x, f, lam, {'A': A_, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'grad': H_ @ x + c}, spec)
    if act:
        labels.append('nontrivial')
    return labels


def make_nlp(d):
    n = d.i(2, 5)
    e = d.cells(4 * n)
    xs = [e.c(-2, 2, 3) for _ in range(n)]
    A, l, u, xmin, xmax = draw_lin(d, n, xs, 0)
    if d.chance(.3):
        A, l, u = [], [], []
    if d.chance(.2):
        xmin, xmax = [None] * n, [None] * n
    e = d.cells(2 * n * n + 8 * n + 100)
    F = np.array([[e.c(-1.5, 1.5, 2) for _ in range(n)] for _ in range(n)])
    Q = np.round(F.T @ F + .2 * np.eye(n), 4)
    spec = {'n': n, 'A': A, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'xs': xs, 'Q': Q.tolist(),
            'c': [e.c(-6, 6, 2) for _ in range(n)], 'ex': [e.f(0, 1, 2) if e.chance(.5) else 0.0 for _ in range(n)]}
    spec['ineq'] = []
    for k in range(e.i_(0, 2)):
        w = [e.f(.05, 2, 2) for _ in range(n)]
        q = [e.c(-1, 1, 2) for _ in range(n)]
        val = sum(wi * x * x + qi * x for wi, qi, x in zip(w, q, xs))
        spec['ineq'].append([w, q, val + e.f(.05, 3)])
    spec['eq'] = []
    if e.chance(.35):
        i, j = 0, 1
        spec['eq'] = [[i, j, xs[i] ** 2 + xs[j] ** 2 + e.f(.0, .0)]] if n > 2 else []
        if spec['eq'] and spec['eq'][0][2] < .05:
            spec['eq'] = []
    spec['sc'] = e.chance(.4)
    spec['verbose'] = e.pick([0, 0, 1, 2, 3])
    spec['tol'] = e.pick([None, None, 1e-8, 1e-4])
    spec['cm'] = e.pick([None, None, 1e-2, 1e-4, 5.0])
    spec['max_it'] = e.pick([None, None, None, 60, 2])
    spec['dict'] = e.chance(.3)
    spec['empty'] = e.chance(.5)      # how absent nonlinear parts are returned
    spec['off'] = [e.c(-1, 1, 3) * 2 for _ in range(n)]
    spec['omit'] = e.chance(.4)
    return spec


def check_nlp(spec):
    import scipy.sparse as sp
    from pypower.pips import pips
    n = spec['n']
    A_ = np.array(spec['A'], float).reshape(-1, n)
    l, u = vec(spec['l'], INF, -1), vec(spec['u'], INF, 1)
    xmin, xmax = vec(spec['xmin'], INF, -1), vec(spec['xmax'], INF, 1)
    Q, c, ex = np.array(spec['Q']), np.array(spec['c']), np.array(spec['ex'])
    W = np.array([r[0] for r in spec['ineq']]).reshape(-1, n)
    q = np.array([r[1] for r in spec['ineq']]).reshape(-1, n)
    rhs = np.array([r[2] for r in spec['ineq']])
    E = spec['eq']
    calls = []

    def f_fcn(x, hess=False):
        calls.append('f')
        f = .5 * x @ Q @ x + c @ x + np.sum(np.exp(ex * x) - 1)
        df = Q @ x + c + ex * np.exp(ex * x)
        return (f, df) if not hess else (f, df, sp.csr_matrix(Q + np.diag(ex ** 2 * np.exp(ex * x))))

    def gh(x):
        h = W @ (x ** 2) + q @ x - rhs
        dh = sp.csr_matrix((2 * W * x + q).T) if len(rhs) else None
        g = np.array([x[i] ** 2 + x[j] ** 2 - v for i, j, v in E])
        dg = None
        if E:
            D = np.zeros((n, len(E)))
            for k, (i, j, v) in enumerate(E):
                D[i, k], D[j, k] = 2 * x[i], 2 * x[j]
            dg = sp.csr_matrix(D)
        return h, g, dh, dg

    seen = []

    def hess(x, lam, cm):
        seen.append(cm)
        H = cm * (Q + np.diag(ex ** 2 * np.exp(ex * x)))
        if len(rhs):
            H = H + np.diag(2 * W.T @ lam['ineqnonlin'])
        for k, (i, j, v) in enumerate(E):
            H[i, i] += 2 * lam['eqnonlin'][k]
            H[j, j] += 2 * lam['eqnonlin'][k]
        return sp.csr_matrix(H)

    nl = len(rhs) + len(E) > 0
    opt = opts(spec)
    if spec['sc'] or not spec.get('omit'):
        opt['step_control'] = spec['sc']
    before = dict(opt)
    x0 = np.array(spec['xs']) + np.array(spec['off'])
    x00 = x0.copy()
    A = sp.csr_matrix(A_) if len(A_) else None
    log = io.StringIO()
    with contextlib.redirect_stdout(log):
        if spec['dict']:
            p = {'f_fcn': f_fcn, 'x0': x0, 'opt': opt, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax}
            if A is not None:
                p['A'] = A
            if nl:
                p.update(gh_fcn=gh, hess_fcn=hess)
            s = pips(p)
        else:
            s = pips(f_fcn, x0, A, l, u, xmin, xmax, gh if nl else None, hess if nl else None, opt)
    log_lines(log.getvalue(), s['output']['hist'], spec['verbose'])
    if spec['verbose']:
        say = re.search(r'^Converged!', log.getvalue(), re.M)
        expect(bool(say) == bool(s['eflag'] == 1), 'log', 'the printed outcome is wrong')
    expect(opt == before and np.array_equal(x0, x00), 'mutated', "the caller's options or starting point were modified")
    x, f, ef, out, lam = s['x'], s['f'], s['eflag'], s['output'], s['lmbda']
    mi = spec['max_it'] or 150
    expect(out['iterations'] <= mi and len(out['hist']) in (out['iterations'], out['iterations'] + 1), 'max-it', 'iterations %d' % out['iterations'])
    labels = ['ok=%d' % bool(ef), 'nineq=%d' % len(rhs), 'neq=%d' % len(E), 'sc=%d' % spec['sc']]

    def con(z):
        h, g, dh, dg = gh(z)
        return h, g, dh.toarray() if dh is not None else np.zeros((n, 0)), dg.toarray() if dg is not None else np.zeros((n, 0))
    k, diff = mips.compare(lambda z, hh: mips.solve(f_fcn, con, lambda y, la, m, cm: hess(y, {'eqnonlin': la, 'ineqnonlin': m}, cm).toarray(),
                                                    z, A_, l, u, xmin, xmax, spec['tol'] or 1e-6, mi, spec['cm'] or 1.0, spec['sc'], hist=hh),
                           x00, out['hist'])
    expect(diff is None, 'history', diff)
    labels.append('compared=%d' % min(k, 5))
    if not ef:
        it = mips.robust(lambda z, t: mips.solve(f_fcn, con, lambda y, la, m, cm: hess(y, {'eqnonlin': la, 'ineqnonlin': m}, cm).toarray(),
                                              z, A_, l, u, xmin, xmax, t, mi, spec['cm'] or 1.0, spec['sc']), x00, min(40, mi), spec['tol'] or 1e-6)
        expect(it is None or it + 2 > mi or not mips.interior(A_, l, u, xmin, xmax, spec['xs']), 'not-solved', 'an independent implementation of the method solves this in %s iterations; got: %s in %d' %
               (it, out['message'], out['iterations']))
    if not ef:
        return labels
    tol, cm = spec['tol'] or 1e-6, spec['cm'] or 1.0
    fr = .5 * x @ Q @ x + c @ x + np.sum(np.exp(ex * x) - 1)
    close(f, fr, 1e-8 * (1 + abs(fr)) + 1e-12 / cm, 'f', 'objective value')
    h, g, dh, dg = gh(x)
    scale = 2 + max(np.abs(x).max(), np.abs(h).max() if len(h) else 0, *[np.abs(v[np.isfinite(v)]).max() if np.any(np.isfinite(v)) else 0 for v in
                    (xmax - x, x - xmin)], *([np.abs(v[np.isfinite(v)]).max() if np.any(np.isfinite(v)) else 0 for v in (u - A_ @ x, A_ @ x - l)]))
    ftol = tol * scale * 1.01
    expect(np.all(h <= ftol), 'nl-ineq', 'nonlinear inequality violated: %s' % h)
    expect(np.all(np.abs(g) <= ftol), 'nl-eq', 'nonlinear equality violated: %s' % g)
    ml = np.asarray(lam.get('ineqnonlin', np.zeros(0)), float)
    mq = np.asarray(lam.get('eqnonlin', np.zeros(0)), float)
    expect(len(ml) == len(rhs) and len(mq) == len(E), 'lambda-shape', 'nonlinear multipliers missing')
    expect(np.all(ml >= 0), 'lambda-sign', 'negative multiplier %s' % ml)
    ctol = tol * (1 + np.abs(x).max()) / cm * 2 + 1e-9
    expect(np.all(ml * np.maximum(-h - ftol, 0) <= ctol * 50), 'complementarity', 'multiplier %s of an inactive constraint %s' % (ml, h))
    nlg = (dh @ ml if len(ml) else 0) + (dg @ mq if len(mq) else 0) + np.zeros(n)
    act = certificate(x, f, lam, {'A': A_, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'grad': Q @ x + c + ex * np.exp(ex * x),
                                  'nlgrad': nlg, 'nlabs': np.abs(dh.toarray()).sum(axis=1) if len(ml) else np.zeros(n),
                                  'eqm': mq, 'iqm': ml, 'slack': np.abs(h)}, spec)
    if act or np.any(ml > 1e-3) or len(E):
        labels.append('nontrivial')
    return labels


def make_unb(d):
    n = d.i(1, 5)
    e = d.cells(8 * n + 60)
    xs = [e.c(-3, 3, 3) for _ in range(n)]
    # a ray r with c.r < 0 along which all constraints stay satisfied
    r = [e.c(-2, 2, 2) for _ in range(n)]
    if not any(r):
        r[0] = 1.0
    c = [e.c(-5, 5, 2) for _ in range(n)]
    cr = sum(a * b for a, b in zip(c, r))
    if cr > 0:
        r = [-a for a in r]
        cr = -cr
    if cr > -.2:
        k = max(range(n), key=lambda i: abs(r[i]))
        c[k] -= (1.0 + cr) / r[k]
    xmin, xmax = [None] * n, [None] * n
    for i in range(n):
        if r[i] >= 0 and e.chance(.6):
            xmin[i] = xs[i] - e.f(.1, 3)
        if r[i] <= 0 and e.chance(.6):
            xmax[i] = xs[i] + e.f(.1, 3)
    A, l, u = [], [], []
    for _ in range(e.i_(1, 3)):
        row = [e.c(-2, 2, 2) for _ in range(n)]
        row[0] = row[0] or 1.0
        v = sum(a * b for a, b in zip(row, xs))
        t = sum(a * b for a, b in zip(row, r))
        A.append(row)
        l.append(v - e.f(.1, 3) if t >= 0 else None)
        u.append(v + e.f(.1, 3) if t <= 0 else None)
    return {'n': n, 'A': A, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'c': c, 'r': r, 'sc': e.chance(.3)}


def check_unb(spec):
    from pypower.qps_pips import qps_pips
    n = spec['n']
    x, f, ef, out, lam = qps_pips(None, np.array(spec['c']), mat(spec['A'], 'csr'), vec(spec['l'], INF, -1), vec(spec['u'], INF, 1),
                                  vec(spec['xmin'], INF, -1), vec(spec['xmax'], INF, 1), None, {'step_control': spec['sc']})
    expect(not ef, 'false-success', 'an unbounded linear program is reported as solved: x=%s f=%s' % (x, f))
    return ['nontrivial']


SUBS = [Sub('qp', gen.spec_strategy(make_qp, size=900), check_qp, 2400, 40000),
        Sub('nlp', gen.spec_strategy(make_nlp, size=900), check_nlp, 1200, 24000),
        Sub('unb', gen.spec_strategy(make_unb, size=300), check_unb, 400, 8000)]
