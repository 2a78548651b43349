"""P26  Options reach the solvers as given."""
import contextlib
import copy
import os
import sys
import tempfile
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, dcopf
from vlib.util import opts, same, snapshot
from checks.p29 import DEFAULTS as CLI_DEFAULTS, captured, steady

ID = 'P26'
LONG = 32
RULE = ('random sets of options, base option dictionaries and unknown options, through every driver; oracle: documented defaults, the iteration history of an '
        'unrestricted run (a tolerance or limit decides only where it stops), silent and verbose runs with identical results, '
        'and derivatives of an independent model. Non-trivial: some option differs from its default')
DEFAULTS = dict(CLI_DEFAULTS, CPF_PARAMETERIZATION=3, CPF_STOP_AT='NOSE', CPF_STEP=0.05, CPF_ADAPT_STEP=False, CPF_ERROR_TOL=1e-3, CPF_STEP_MIN=1e-4, CPF_STEP_MAX=0.2,
                CPF_PLOT_LEVEL=0, CPF_PLOT_BUS='', CPF_USER_CALLBACK='', CPF_USER_CALLBACK_ARGS='')


def value(d, v):
    if isinstance(v, bool):
        return d.b()
    if isinstance(v, int):
        return d.i(-1, 300)
    if isinstance(v, float):
        return 10.0 ** -d.i(0, 12) * d.pick([1, 3])
    return d.pick(['', 'FULL', 'x', 'NOSE', '0'])


# --------------------------------------------------------------------- ppoption
def build_spec(d):
    names = sorted(DEFAULTS)
    some = lambda p: {n: value(d, DEFAULTS[n]) for n in names if d.chance(p)}
    un = lambda: {n: d.pick([1, 2.5, 'text', None, [1]]) for n in ['MY_OPTION', 'pf_tol', 'GRB_OPT', 'pf_alg', 'X'] if d.chance(.2)}
    return {'base': d.pick(['none', 'none', 'full', 'own', 'some', 'empty']), 'b': dict(some(.2), **un()), 'k': dict(some(d.pick([0, .05, .3])), **un()),
            'again': d.b(), 'pos': d.b()}


def check_build(s):
    from pypower.api import ppoption
    first = ppoption()
    expect(isinstance(first, dict), 'type', '')
    for n, v in DEFAULTS.items():
        expect(n in first, 'default-missing', n)
        expect(first[n] == v and isinstance(first[n], bool) == isinstance(v, bool), 'default', lambda: '%s is %r, documented %r' % (n, first[n], v))
    if s['again']:          # a changed options vector is the caller's own
        for n in list(first):
            first[n] = 'mine'
        first['OTHER'] = 1
        first = ppoption()
        expect(all(first[n] == v for n, v in DEFAULTS.items()) and 'OTHER' not in first, 'defaults-shared', 'the defaults follow changes made to a returned vector')
    base = {'none': None, 'full': dict(ppoption(), **s['b']), 'own': ppoption(**s['b']), 'some': dict(s['b']), 'empty': {}}[s['base']]
    kw = dict(s['k'])
    before = copy.deepcopy((base, kw))
    got = ppoption(base, **kw) if s['pos'] or base is None and not s['again'] else ppoption(ppopt=base, **kw)
    expect((base, kw) == before, 'caller-modified', 'the given options changed')
    want = dict(DEFAULTS) if base is None else dict(base)
    want.update(kw)
    for n, v in want.items():
        expect(n in got and got[n] == v and type(got[n]) in (type(v), int, float), 'value', lambda: '%s is %r instead of %r' % (n, got.get(n), v))
    if base is not None:
        expect(set(got) <= set(want) | set(DEFAULTS), 'extra', lambda: '%s' % sorted(set(got) - set(want)))
        for n in set(got) - set(want):
            expect(got[n] == DEFAULTS[n], 'extra', lambda: '%s appears as %r' % (n, got[n]))
        got['NEW'] = 1
        got['PF_TOL'] = 'changed'
        expect(base == before[0], 'aliased', 'the returned vector is the one given')
    return ['base-' + s['base']] + ['nontrivial'] * bool(s['k'] or s['base'] in ('full', 'own', 'some') and s['b'])


# ---------------------------------------------------------------- interior point
def solver_spec(d, mode):
    net = gen.draw_net(d, nb_max=5, stress=.7)
    if mode == 'dc':
        dcopf.add_dcopf(d, net)
    else:
        acopf.add_opf(d, net, tight=.3, pqcap=.1, disp=.2, qcost=.2)
    e = d.cells(30)
    t = lambda: 10.0 ** e.f(-9, -2, 2)
    o = {}
    for n in ('OPF_VIOLATION', 'PDIPM_FEASTOL', 'PDIPM_GRADTOL', 'PDIPM_COMPTOL', 'PDIPM_COSTTOL'):
        if e.chance(.6 if n == 'OPF_VIOLATION' else .4):
            o[n] = t()
    if e.chance(.3):
        o['PDIPM_MAX_IT'] = e.i_(1, 14)
    if e.chance(.4):
        o['SCPDIPM_RED_IT'] = e.i_(0, 6)
    if e.chance(.5):        # one tolerance decides
        k = e.pick(['OPF_VIOLATION', 'PDIPM_FEASTOL', 'PDIPM_GRADTOL', 'PDIPM_COMPTOL', 'PDIPM_COSTTOL'])
        o = {n: v for n, v in o.items() if n in ('PDIPM_MAX_IT', 'SCPDIPM_RED_IT')}
        o[k] = 10.0 ** e.f(-11, -3, 2)
        for n in ('OPF_VIOLATION', 'PDIPM_GRADTOL', 'PDIPM_COMPTOL', 'PDIPM_COSTTOL'):
            if n != k and not (n == 'OPF_VIOLATION' and k == 'PDIPM_FEASTOL'):
                o[n] = 1e-2
        if k == 'PDIPM_FEASTOL' and e.chance(.5):
            o['OPF_VIOLATION'] = 1e-12
    return {'net': net, 'dc': mode == 'dc', 'o': o, 'sc': e.chance(.35), 'via': d.pick(['runopf', 'opf', 'rundcopf' if mode == 'dc' else 'runopf', 'uopf']),
            'first': e.chance(.5), 'unknown': e.chance(.2), 'alg0': e.chance(.5)}


def tolerances(o):
    feas = o.get('PDIPM_FEASTOL', 0) or o.get('OPF_VIOLATION', 5e-6)
    return (('feascond', feas), ('gradcond', o.get('PDIPM_GRADTOL', 1e-6)), ('compcond', o.get('PDIPM_COMPTOL', 1e-6)), ('costcond', o.get('PDIPM_COSTTOL', 1e-6)))


def history(r):
    try:
        return r['raw']['output']['hist']
    except (KeyError, TypeError):
        return None


def watch(seen):
    """Stand-ins that note the options the interior point method gets."""
    @contextlib.contextmanager
    def ctx():
        import importlib
        old = []
        for m in ('pypower.pipsopf_solver', 'pypower.qps_pips'):
            m = importlib.import_module(m)
            if hasattr(m, 'pips'):
                old.append((m, m.pips))

                def f(*a, _real=m.pips, **k):
                    o = a[9] if len(a) > 9 else k.get('opt')
                    o = a[0].get('opt') if o is None and len(a) and isinstance(a[0], dict) else o
                    seen.append(dict(o or {}))
                    return _real(*a, **k)
                m.pips = f
        try:
            yield
        finally:
            for m, f in old:
                m.pips = f
    return ctx()


def check_solver(s):
    from pypower.api import runopf, opf, rundcopf, uopf, ppoption
    case = gen.arr(s['net']['ppc'])
    alg = dict(OPF_ALG_DC=250 if s['sc'] else 200 if s['alg0'] else 0) if s['dc'] else dict(OPF_ALG=565 if s['sc'] else 560 if s['alg0'] else 0)
    quiet = dict(VERBOSE=0, OUT_ALL=0, PF_DC=s['dc'], **alg)
    if s['via'] == 'rundcopf':
        del quiet['PF_DC']
    f = {'runopf': runopf, 'opf': opf, 'rundcopf': rundcopf, 'uopf': uopf}[s['via']]
    g = runopf if s['via'] != 'rundcopf' else rundcopf
    red = {'SCPDIPM_RED_IT': s['o']['SCPDIPM_RED_IT']} if 'SCPDIPM_RED_IT' in s['o'] else {}
    full = ppoption(PDIPM_FEASTOL=1e-13, PDIPM_GRADTOL=1e-14, PDIPM_COMPTOL=1e-14, PDIPM_COSTTOL=1e-15, PDIPM_MAX_IT=LONG, **dict(quiet, **red))
    o = ppoption(**dict(quiet, **s['o']))
    if s['unknown']:
        o['NOT_AN_OPTION'] = 'x'
    before = copy.deepcopy(o)
    seen = []
    long_ = None
    skip = False
    try:
        if s['first']:
            long_ = g(copy.deepcopy(case), full)
        with watch(seen):
            r = f(copy.deepcopy(case), o) if s['via'] != 'uopf' else opf(copy.deepcopy(case), o)
        if not s['first']:
            long_ = g(copy.deepcopy(case), full)
    except np.linalg.LinAlgError:
        skip = True
    expect(o == before, 'caller-modified', lambda: 'options changed: %s' % {k: (before.get(k), o.get(k)) for k in set(o) | set(before) if o.get(k) != before.get(k)})
    labels = ['dc' if s['dc'] else 'ac', 'sc' if s['sc'] else 'plain']
    eff = dict(DEFAULTS, **s['o'])
    feas = eff['PDIPM_FEASTOL'] or eff['OPF_VIOLATION']
    for k in seen:
        for n, v in (('feastol', feas), ('gradtol', eff['PDIPM_GRADTOL']), ('comptol', eff['PDIPM_COMPTOL']), ('costtol', eff['PDIPM_COSTTOL']),
                     ('max_it', eff['PDIPM_MAX_IT'])):
            expect(k.get(n, {'max_it': 150}.get(n, 1e-6)) == v, 'solver-option', lambda: 'the solver gets %s=%r, the option says %r' % (n, k.get(n), v))
        expect(bool(k.get('step_control', False)) == s['sc'], 'solver-option', 'step control %r with %r' % (k.get('step_control'), alg))
        if s['sc']:
            expect(k.get('max_red', 20) == eff['SCPDIPM_RED_IT'], 'solver-option', 'max_red is %r, SCPDIPM_RED_IT %r' % (k.get('max_red'), eff['SCPDIPM_RED_IT']))
        labels.append('seen')
    if skip:
        return labels + ['singular']
    H, h = history(long_), history(r)
    if H is None or h is None:
        return labels + ['no-history']
    # an iterate is final when all four conditions hold, or the limit is reached
    tol = tolerances(s['o'])
    limit = eff['PDIPM_MAX_IT']
    n = None
    edge = False
    for i, x in enumerate(H):
        c = [float(np.ravel(x[k])[0]) for k, _ in tol]
        edge = edge or any(abs(v - t) <= 1e-9 * t for v, (_, t) in zip(c, tol))
        if all(v < t for v, (_, t) in zip(c, tol)):
            n = i
            break
        if i == limit:
            break
    if edge:
        return labels + ['edge']
    if n is None and len(H) - 1 < limit:
        # the unrestricted run ended first: the other one ends there too
        labels.append('outlasted')
        expect(not r['success'] or len(h) > LONG, 'false-success', lambda: 'success without meeting the tolerances %s: %s' % (tol, h[-1]))
        return labels
    end = n if n is not None else limit
    expect(len(h) - 1 == end, 'stops-elsewhere', lambda: 'the solver stopped after %d iterations, tolerances %s and limit %d are met after %s' % (len(h) - 1, tol, limit, end))
    expect(r['raw']['output'].get('iterations', end) == end, 'iterations', '%r reported' % r['raw']['output'].get('iterations'))
    expect(bool(r['success']) == (n is not None), 'success', lambda: 'success=%r, tolerances met: %s' % (r['success'], n))
    x, y = H[end], h[end]
    for k in ('feascond', 'gradcond', 'compcond', 'obj'):
        a, b = float(np.ravel(x[k])[0]), float(np.ravel(y[k])[0])
        expect(abs(a - b) <= 1e-6 * (1e-6 + abs(a)), 'path', lambda: '%s at iteration %d: %r instead of %r' % (k, end, b, a))
    labels += ['ok' if n is not None else 'limit'] + ['nontrivial'] * bool(s['o'])
    return labels


# ------------------------------------------------------------ verbosity, no effect
DRIVERS = ['runpf', 'rundcpf', 'runopf', 'rundcopf', 'runuopf', 'runduopf', 'runopf_w_res', 'runcpf']


def quiet_spec(d):
    drv = d.pick(DRIVERS)
    net = gen.draw_net(d, nb_max=4, stress=.6, forbid=['multiref'])
    if 'opf' in drv:
        acopf.add_opf(d, net, tight=.05, pqcap=.05, disp=.2, qcost=.1, rates=.2, fixed=0, angle=.1)
        if drv in ('runuopf', 'runduopf'):
            for r in net['ppc']['gen']:
                if r[8] > 0 and d.chance(.5):
                    r[9] = max(r[9], round(.3 * r[8], 3))
    elif d.chance(.5):
        gen.perturb_start(d, net['ppc'])
    e = d.cells(60)
    o = {}
    if e.chance(.3):
        o['PF_ALG'] = e.i_(1, 4)
    if e.chance(.2):
        o['ENFORCE_Q_LIMS'] = e.i_(0, 2)
    if e.chance(.15):
        o.update(PF_MAX_IT=1, PF_MAX_IT_GS=20, PDIPM_MAX_IT=5)
    o.setdefault('PF_MAX_IT_GS', 200)
    if e.chance(.2):
        o.update(OPF_ALG=565, OPF_ALG_DC=250)
    if e.chance(.3):
        o['RETURN_RAW_DER'] = 1
    if e.chance(.2):
        o['PF_DC'] = True
    out = {'VERBOSE': e.i_(0, 3)}
    for n, v in DEFAULTS.items():
        if n.startswith('OUT_') and e.chance(.4):
            out[n] = e.b() if isinstance(v, bool) else e.i_(-1 if n in ('OUT_ALL', 'OUT_ALL_LIM') else 0, 1 if n == 'OUT_ALL' else 2)
    if e.chance(.3):
        out.update(MY_OWN=e.i_(0, 5), pf_tol=1, opf_alg=7)
    return {'drv': drv, 'net': net, 'o': o, 'out': out, 'noarg': e.chance(.05), 'file': e.chance(.3)}


def drive(drv, case, o, fname=''):
    import pypower.api as api
    if drv == 'runcpf':
        t = copy.deepcopy(case)
        t['bus'][:, [2, 3]] *= 1.5
        t['gen'][:, 1] *= 1.5
        return api.runcpf(case, t, o, fname)
    return getattr(api, drv)(case, o, fname)


def payload(r):
    """The numbers of a result."""
    if isinstance(r, tuple):
        return [payload(x) for x in r]
    if not isinstance(r, dict):
        return r
    res = {k: np.array(r[k], float) for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost', 'x', 'f', 'success') if k in r and r[k] is not None}
    if 'cpf' in r:
        res.update({'cpf-' + k: np.array(v) for k, v in r['cpf'].items() if isinstance(v, np.ndarray)})
    return res


def check_quiet(s):
    from pypower.api import ppoption
    case = gen.arr(s['net']['ppc'])
    if s['drv'] == 'runopf_w_res':
        n = len(case['gen'])
        case['reserves'] = {'zones': np.ones((1, n)), 'req': np.array([.01 * case['baseMVA']]), 'cost': np.arange(1.0, n + 1),
                            'qty': np.full(n, .1 * case['baseMVA'])}
    if s['drv'] == 'runcpf':
        s['o'].pop('PF_DC', None)
        s['o']['CPF_STOP_AT'] = .2
    before = snapshot(case)
    d = tempfile.mkdtemp(prefix='verif-opt-')
    try:
        res, txt, rep = [], [], []
        for o in (ppoption(VERBOSE=0, OUT_ALL=0, **s['o']), ppoption(**dict(s['o'], **s['out']))):
            keep = copy.deepcopy(o)
            err = None
            f = os.path.join(d, 'report%d' % len(res)) if s['file'] else ''
            out = []
            with captured(out):
                try:
                    r = payload(drive(s['drv'], case, o, f))
                except Exception as e:
                    r, err = type(e).__name__, e
            expect(o == keep, 'caller-modified', lambda: '%s changed the options: %s' % (s['drv'], {k: (keep.get(k), o.get(k)) for k in set(o) | set(keep) if o.get(k) != keep.get(k)}))
            res.append((r, err))
            txt.append(out[0])
            rep.append(open(f).read() if f and os.path.exists(f) else None)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    expect(same(case, before), 'case-modified', s['drv'])
    (a, ea), (b, eb) = res
    labels = [s['drv']] + ['nontrivial'] * (ea is None)
    expect(isinstance(a, str) == isinstance(b, str), 'output-option-fails', lambda: 'silent: %r, with %s: %r' % (ea or 'ok', s['out'], eb or 'ok'))
    if isinstance(a, str):
        if isinstance(ea, (np.linalg.LinAlgError, ValueError)):
            return labels + ['error-' + a]
        raise ea
    expect(same(a, b), 'output-option-matters', lambda: '%s: results differ with %s' % (s['drv'], s['out']))
    left = [x for x in txt[0].split('\n') if x.strip() and 'Warning' not in x]
    expect(not left, 'not-silent', lambda: '%s with VERBOSE=0, OUT_ALL=0 prints %r' % (s['drv'], left[:3]))
    if s['file'] and s['drv'] != 'runcpf':
        expect(not (rep[0] or '').strip() or 'did not converge' in (rep[0] or '').lower(), 'not-silent', lambda: 'report with OUT_ALL=0: %r' % rep[0][:200])
    return labels + ['verbose-%d' % s['out']['VERBOSE']]


# ---------------------------------------------------------------- RETURN_RAW_DER
def raw_spec(d):
    net = gen.draw_net(d, nb_max=5, stress=.7)
    acopf.add_opf(d, net, tight=.2, pqcap=.1, disp=.2, qcost=.2)
    return {'net': net, 'on': d.chance(.85), 'kind': d.pick([0, 0, 1, 2]), 'dc': d.chance(.07), 'short': d.chance(.1), 'via': d.pick(['runopf', 'opf'])}


def check_raw(s):
    from pypower.api import runopf, opf
    ppc = s['net']['ppc']
    case = gen.arr(ppc)
    o = opts(RETURN_RAW_DER=int(s['on']), OPF_FLOW_LIM=s['kind'], PF_DC=s['dc'], **({'PDIPM_MAX_IT': 2} if s['short'] else {}))
    try:
        r = (runopf if s['via'] == 'runopf' else opf)(case, o)
    except np.linalg.LinAlgError:
        return ['singular']
    except ValueError:
        if s['dc']:             # (a documented refusal: cubic costs)
            return ['refused']
        raise
    raw = r['raw']
    if not s['on'] or s['dc']:
        return ['off']
    for k in ('g', 'dg', 'df', 'd2f'):
        expect(k in raw, 'raw-missing', lambda: 'raw[%r] is missing (success=%r)' % (k, r['success']))
    if not r['success']:
        return ['failed']
    q = r['order']
    L = ref.Live(ppc)
    base = L.base
    x = np.array(r['x'], float)
    nb, ng, nl = L.n, len(L.g), len(L.br)
    # internal order of buses, units and branches, from the results themselves
    va, vm, pg, qg = x[:nb], x[nb:2 * nb], x[2 * nb:2 * nb + ng], x[2 * nb + ng:2 * nb + 2 * ng]
    rows = L.rows
    e = np.array(q['gen']['e2i'], int)
    on = [k for k in range(len(ppc['gen'])) if k in set(L.g)]
    units = [on[i] for i in e] if len(e) == ng else None
    if units is None or np.max(np.abs(r['gen'][units, 1] / base - pg), initial=0) > 1e-9:
        return ['order-unknown']
    expect(np.max(np.abs(r['bus'][rows, 7] - vm)) < 1e-9, 'raw-order', 'x is not in internal order')
    net = acopf.AcNet(L)
    br = list(L.br)
    ub = [L.idx[int(ppc['gen'][k][0])] for k in units]

    C = np.zeros((nb, ng))
    C[ub, np.arange(ng)] = 1

    def fun(z):
        a, m, p, qq = z[:nb], z[nb:2 * nb], z[2 * nb:2 * nb + ng], z[2 * nb + ng:2 * nb + 2 * ng]
        P, Q = net.inj(a, m)
        col = (lambda v: v[:, None]) if z.ndim == 2 else (lambda v: v)
        return np.concatenate((P - C @ p + col(L.Sd.real), Q - C @ qq + col(L.Sd.imag)) + tuple(net.flow2(a, m, s['kind'])))
    z = x[:2 * nb + 2 * ng]
    v = fun(z)
    g = np.array(raw['g'], float).ravel()
    lim = np.array([ppc['branch'][k][5] for k in br]) / base
    lim2 = np.where(lim > 0, lim ** 2, np.inf)
    want = v - np.concatenate([np.zeros(2 * nb), lim2, lim2])
    expect(len(g) == len(want), 'raw-g', lambda: '%d constraints, expected %d' % (len(g), len(want)))
    with np.errstate(invalid='ignore'):
        bad = [i for i in range(len(g)) if not (g[i] == want[i] or abs(g[i] - want[i]) <= 1e-8 * (1 + abs(v[i])))]
    expect(not bad, 'raw-g', lambda: 'constraints %s: %s instead of %s' % (bad[:5], g[bad][:5], want[bad][:5]))
    J = acopf.cstep(fun, z)
    dg = raw['dg'].toarray() if hasattr(raw['dg'], 'toarray') else np.array(raw['dg'])
    ny = sum(c[0] == 1 and c[3] > 2 for w in range(2 if len(ppc['gencost']) == 2 * len(ppc['gen']) else 1)
             for c in [ppc['gencost'][u + w * len(ppc['gen'])] for u in units])
    nx = len(z) + ny        # (the entries of x for curves of one segment are placeholders)
    expect(dg.shape == (len(g), nx), 'raw-dg', lambda: 'shape %s, expected %s' % (dg.shape, (len(g), nx)))
    x = x[:nx]
    sc = 1 + np.max(np.abs(J))
    expect(np.max(np.abs(dg[:, :len(z)] - J), initial=0) <= 1e-7 * sc, 'raw-dg', lambda: 'largest error %g' % np.max(np.abs(dg[:, :len(z)] - J)))
    expect(np.max(np.abs(dg[:, len(z):]), initial=0) == 0, 'raw-dg', 'cost variables appear in the network constraints')
    df = np.array(raw['df'], float).ravel()
    d2f = raw['d2f'].toarray() if hasattr(raw['d2f'], 'toarray') else np.array(raw['d2f'])
    expect(df.shape == (len(x),) and d2f.shape == (len(x), len(x)), 'raw-df', 'shapes %s %s' % (df.shape, d2f.shape))
    nG = len(ppc['gen'])
    gc = ppc['gencost']
    want1, want2 = np.zeros(len(x)), np.zeros(len(x))
    for which in range(2 if len(gc) == 2 * nG else 1):
        for k, u in enumerate(units):
            c = gc[u + which * nG]
            xx = (pg, qg)[which][k] * base
            if c[0] == 2:
                co = np.array(c[4:4 + int(c[3])])
                d1 = np.polyder(co) if len(co) > 1 else np.zeros(1)
                d2 = np.polyder(d1) if len(d1) > 1 else np.zeros(1)
                want1[2 * nb + which * ng + k] = np.polyval(d1, xx) * base
                want2[2 * nb + which * ng + k] = np.polyval(d2, xx) * base ** 2
    want1[len(z):] = 1          # every piecewise linear cost variable
    pwl = {2 * nb + w * ng + k for w in range(2 if len(gc) == 2 * nG else 1) for k, u in enumerate(units) if gc[u + w * nG][0] == 1}
    ok = [i for i in range(len(x)) if i not in pwl]        # single-segment curves enter as linear costs
    expect(np.all(np.abs(df - want1)[ok] <= 1e-7 * (1 + np.abs(want1[ok]))), 'raw-df', lambda: '%s instead of %s' % (df[ok], want1[ok]))
    expect(np.max(np.abs(np.diag(d2f) - want2)[ok] - 1e-7 * (1 + np.abs(want2[ok]))) <= 0, 'raw-d2f', lambda: '%s instead of %s' % (np.diag(d2f)[ok], want2[ok]))
    off = d2f - np.diag(np.diag(d2f))
    expect(np.max(np.abs(off), initial=0) == 0, 'raw-d2f', 'cross terms')
    return ['nontrivial', 'kind-%d' % s['kind']]


SUBS = [
    Sub('build', gen.spec_strategy(build_spec, size=300), check_build, 600, 30000),
    Sub('ac', gen.spec_strategy(solver_spec, 'ac'), check_solver, 100, 3000),
    Sub('dc', gen.spec_strategy(solver_spec, 'dc'), check_solver, 240, 8000),
    Sub('quiet', gen.spec_strategy(quiet_spec), check_quiet, 240, 5000),
    Sub('raw', gen.spec_strategy(raw_spec), check_raw, 80, 2000),
]
