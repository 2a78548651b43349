"""P12  Saved cases load back as the same case (round trip through real files)."""
import os
import shutil
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, acopf, opfcase, ref
from vlib.util import opts, close, same, snapshot, dense

ID = 'P12'
RULE = ('roundtrip: random cases (numbering, row orders, statuses, infinite limits, extra columns, areas, user constraints, costs and variables, '
        'dense or sparse) as given or solved by one of four drivers, saved in either format; loadcase: every documented source, version and error. '
        'Non-trivial: at least three buses and at least one optional field or a solved case (roundtrip), every distinct case (loadcase)')
NCOL = {'bus': (13, 17), 'gen': (21, 25), 'branch': (13, 17, 21)}
VEC = ['l', 'u', 'Cw', 'z0', 'zl', 'zu']


def scratch():
    d = os.path.abspath('p12')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'sub.dir'))
    return d


def num(e, inf=.15):
    if e.chance(inf):
        return 'inf' if e.b() else '-inf'
    return e.pick([e.c(-5, 5), e.c(-5e4, 5e4, 2), e.c(-1e-3, 1e-3, 9), 1e10, 0.0, 3.0, -2.0])


def make(d):
    net = gen.draw_net(d, nb_max=7)
    acopf.add_opf(d, net, pqcap=.2)
    ppc = net['ppc']
    e = d.cells(200)
    s = {'net': net, 'fmt': e.pick(['py', 'mat']), 'ext': e.chance(.6), 'dir': e.pick(['', 'sub.dir']),
         'solve': e.pick(['', 'runpf', 'rundcpf', 'runopf', 'rundcopf', '']), 'comment': e.pick([None, 'a case', ['two', 'lines']]),
         'extra': {}, 'dense': e.chance(.3), 'infq': e.chance(.2), 'xcols': e.pick([0, 0, 1, 2]), 'again': e.pick(['runpf', 'rundcpf'])}
    if s['solve'] == 'rundcopf' and any(r[0] == 2 and r[3] > 3 for r in ppc['gencost']):
        s['solve'] = 'rundcpf'      # the DC OPF takes at most quadratic costs
    if e.chance(.3):
        s['extra']['areas'] = [[k + 1, int(ppc['bus'][e.i_(0, len(ppc['bus']) - 1)][0])] for k in range(e.i_(1, 3))]
    if not s['solve'] or s['solve'].endswith('cpf') or s['solve'] == 'runpf':
        if e.chance(.15):
            s['nocost'] = True
        elif e.chance(.3):              # polynomials of any length beside short and long piecewise linear costs
            rows = []
            for _ in ppc['gencost']:
                m = e.i_(1, 7)
                rows.append([2, 0.0, 0.0, m] + [e.c(-9, 9, 6) for _ in range(m)] if e.chance(.6) else
                            [1, 5.0, 0.0, 1 + m // 2] + [e.c(-99, 99, 3) for _ in range(2 * (1 + m // 2))])
            w = max(len(r) for r in rows) + e.i_(0, 2)
            s['costs'] = [r + [0.0] * (w - len(r)) for r in rows]
    nx = 2 * len(ppc['bus']) + 2 * len(ppc['gen'])
    if e.chance(.4):
        m = e.i_(1, 3)
        A = [[0.0] * nx for _ in range(m)]
        for r in A:
            for _ in range(e.i_(0, 3)):
                r[e.i_(0, nx - 1)] = e.c(-3, 3)
        s['extra']['A'] = A
        if e.chance(.8):
            s['extra']['l'] = [num(e) for _ in range(m)]
        if e.chance(.8):
            s['extra']['u'] = [num(e) for _ in range(m)]
    if e.chance(.3):
        u = opfcase.draw_usercost(d, nx)
        for k in ('N', 'Cw'):
            s['extra'][k] = u[k]
        if u['H'] is not None:
            s['extra']['H'] = u['H']
        if e.chance(.6):
            s['extra']['fparm'] = [list(r) for r in zip(u['dd'], u['rh'], u['kk'], u['mm'])]
    if e.chance(.25):
        k = e.i_(1, 3)
        for z in ('z0', 'zl', 'zu'):
            if e.chance(.8):
                s['extra'][z] = [num(e) for _ in range(k)]
    return s


def build(s):
    from scipy.sparse import csr_matrix
    ppc = gen.arr(s['net']['ppc'])
    for k, v in s['extra'].items():
        v = np.array(v, dtype=float)
        if k in ('A', 'N', 'H') and not s['dense']:
            v = csr_matrix(v)
        ppc[k] = v
    if s.get('costs'):
        ppc['gencost'] = np.array(s['costs'], float)
    if s.get('nocost'):
        del ppc['gencost']
    if s['infq']:
        ppc['gen'][0, 3:5] = np.inf, -np.inf
    if s['xcols']:
        for t in ('bus', 'gen', 'branch')[:s['xcols'] + 1]:
            n = len(ppc[t])
            ppc[t] = np.hstack([ppc[t], np.arange(n * s['xcols']).reshape(n, s['xcols']) / 4.0])
    return ppc


def kept(name, cols):
    return max(c for c in NCOL[name] if c <= cols)


def cmp_table(name, got, exp, fmt, what):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    if fmt == 'mat':
        expect(same(got, exp), what, '%s differs after a MAT round trip' % name)
        return
    n = kept(name, exp.shape[1])
    expect(got.shape == (exp.shape[0], n), what, '%s has shape %s, saved from %s' % (name, got.shape, exp.shape))
    for c in range(n):
        # results are written to four decimals, everything else to nine significant digits
        res = {'bus': c >= 13, 'gen': c >= 21, 'branch': c >= 13}[name]
        a, b = got[:, c], exp[:, c]
        f = np.isfinite(b)
        expect(bool(np.all(a[~f] == b[~f])), what, '%s column %d: infinite entries differ' % (name, c))
        close(a[f], b[f], 5.0001e-5 if res else 0.0, what, '%s column %d' % (name, c), rel=1e-12 if res else 5.1e-9)


def cmp_vec(k, got, exp, fmt):
    got, exp = np.asarray(got), np.asarray(exp, float)
    expect(got.shape == exp.shape, 'vector', '%s has shape %s, saved from %s' % (k, got.shape, exp.shape))
    f = np.isfinite(exp)
    expect(bool(np.all(got[~f] == exp[~f])), 'vector', '%s: infinite entries differ: %s, %s' % (k, got, exp))
    close(got[f], exp[f], 0.0, 'vector', k, rel=5.1e-9)


def check(s):
    from pypower.api import runpf, rundcpf, runopf, rundcopf, savecase, loadcase
    drv = {'runpf': runpf, 'rundcpf': rundcpf, 'runopf': runopf, 'rundcopf': rundcopf}
    d = scratch()
    try:
        ppc = build(s)
        labels = [s['fmt'], 'solve=' + s['solve']]
        if s['solve']:
            q = ppc
            if s['solve'].endswith('opf'):
                # solve without the user data (which need not be feasible), then save with it
                q = {k: v for k, v in ppc.items() if k not in s['extra']}
            r = drv[s['solve']](q, opts())
            r = r[0] if isinstance(r, tuple) else r
            for k in s['extra']:
                r[k] = ppc[k]
            ppc = r
            if not ppc['success']:
                labels.append('failed')
        before = snapshot({k: v for k, v in ppc.items() if k != 'om'})
        name = os.path.join(d, s['dir'], 'a_case')
        ext = '.' + s['fmt']
        give = name + ext if (s['ext'] or s['fmt'] == 'mat') else name
        r = savecase(give, ppc) if s['comment'] is None else savecase(give, ppc, s['comment'])
        expect(r == name + ext, 'name', 'savecase(%r) returned %r' % (give, r))
        after = {k: v for k, v in ppc.items() if k != 'om'}
        expect(same(before, after), 'save-modifies', 'savecase modified the case: %s' %
               [k for k in sorted(set(before) | set(after)) if not same(before.get(k), after.get(k))])
        expect(sorted(os.listdir(os.path.dirname(r))) == sorted(set(['a_case' + ext] + (['sub.dir'] if not s['dir'] else []))),
               'files', 'files written: %s' % os.listdir(os.path.dirname(r)))
        c = loadcase(r if s['ext'] else name)
        expect(isinstance(c, dict), 'load', 'loadcase returned %r' % (c,))
        expect(str(np.asarray(c['version']).flat[0]) == '2', 'version', 'version %r' % c['version'])
        expect(np.ndim(c['baseMVA']) == 0 and float(c['baseMVA']) == float(ppc['baseMVA']), 'baseMVA', repr(c['baseMVA']))
        for t in ('bus', 'gen', 'branch'):
            cmp_table(t, c[t], ppc[t], s['fmt'], t)
        if 'gencost' in ppc:
            g, e = np.asarray(c['gencost']), ppc['gencost']
            w = [int(x[3]) * (2 if x[0] == 1 else 1) for x in e]
            expect(len(g) == len(e), 'gencost', 'gencost has %d rows, saved %d' % (len(g), len(e)))
            for k in range(len(e)):
                close(g[k][:4 + w[k]], e[k][:4 + w[k]], 0, 'gencost', 'gencost row %d' % k, rel=5.1e-9)
                expect(g.shape[1] <= e.shape[1] and not np.any(g[k][4 + w[k]:] != e[k][4 + w[k]:g.shape[1]]), 'gencost', 'padding of row %d' % k)
        else:
            expect('gencost' not in c, 'gencost', 'cost table appeared')
        for k in s['extra']:
            expect(k in c, 'field', 'field %s is lost' % k)
            e = ppc[k]
            if k in VEC:
                cmp_vec(k, c[k], e, s['fmt'])
            else:
                close(dense(c[k]), dense(e), 0, 'field', k, rel=5.1e-9)
        for k in ('areas', 'A', 'l', 'u', 'N', 'H', 'fparm', 'Cw', 'z0', 'zl', 'zu'):
            expect((k in c) == (k in ppc), 'field', 'field %s: present %s, saved %s' % (k, k in c, k in ppc))
        # a second round trip changes nothing more
        r2 = savecase(os.path.join(d, 'b_case' + ext), {k: v for k, v in c.items() if k not in ('lin', 'nln', 'var', 'raw', 'mu')})
        c2 = loadcase(r2)
        for k in ['baseMVA', 'bus', 'gen', 'branch'] + (['gencost'] if 'gencost' in c else []) + list(s['extra']):
            expect(same(dense(np.asarray(c2[k]) if not hasattr(c2[k], 'toarray') else c2[k]),
                        dense(np.asarray(c[k]) if not hasattr(c[k], 'toarray') else c[k])), 'second', 'field %s changes in a second round trip' % k)
        # and the case solves to the same answer
        a, oka = drv[s['again']](ppc, opts())
        b, okb = drv[s['again']](c, opts())
        L = ref.Live({k: ppc[k] for k in ('baseMVA', 'bus', 'gen', 'branch')})
        cond = 1.0
        if s['again'] == 'runpf':
            cond = L.newton(tol=1e-9, max_it=8)
            cond = cond[3] if cond[2] is not None and cond[2] <= 6 else 1e99
        if cond < 1e4:
            expect(oka == okb, 'solve', 'success %s, after the round trip %s' % (oka, okb))
        if cond < 1e4 and oka:
            close(b['bus'][:, 7:9], a['bus'][:, 7:9], 1e-6, 'solve', 'voltages', rel=1e-6)
            close(b['branch'][:, 13:17], a['branch'][:, 13:17], 1e-6 * L.base * 10, 'solve', 'flows', rel=1e-5)
            labels.append('solved-same')
        if len(ppc['bus']) > 2 and (s['extra'] or s['solve']):
            labels.append('nontrivial')
        return labels + ['field=' + k for k in s['extra']]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------- loadcase
def make_load(d):
    net = gen.draw_net(d, nb_max=4)
    acopf.add_opf(d, net, quad_only=True, angle=.9, pqcap=.5)
    e = d.cells(60)
    return {'net': net, 'src': e.pick(['dict', 'pydict', 'pytuple', 'matstruct', 'matvars']), 'v1': e.chance(.5), 'ext': e.b(),
            'both': e.chance(.3), 'struct': e.pick(['ppc', 'mpc']), 'res': e.pick(['', 'pf', 'opf']), 'ver': e.pick(['', 'key']),
            'call': e.pick(['obj', 'obj', 'all', 'noareas', 'none']), 'drop': e.pick(['', '', '', 'areas', 'gencost', 'bus', 'gen', 'branch', 'baseMVA']),
            'none': e.chance(.3), 'rnd': [e.c(-20, 20, 3) for _ in range(8)],
            'bad': e.pick(['', '', '', '', '', 'type', 'noext', 'nomat', 'nopy', 'syntax', 'nofunc', 'raises', 'garbagemat']),
            'what': e.i_(0, 5)}


def v1(g, br, res, rnd):
    """The version 1 tables, and what loading them must give."""
    w = br[:, :11]
    gv = g[:, :10]
    if res:
        w = np.hstack([w, np.outer(np.arange(1, len(w) + 1), rnd[:4])])
    if res == 'opf':
        w = np.hstack([w, np.outer(np.arange(1, len(w) + 1), rnd[4:6])])
        gv = np.hstack([gv, np.outer(np.arange(1, len(gv) + 1), rnd[4:8])])
    n = len(w)
    full = np.hstack([w[:, :11], np.tile([-360., 360.], (n, 1)), w[:, 11:]] + ([np.zeros((n, 2))] if res == 'opf' else []))
    gfull = np.hstack([gv[:, :10], np.zeros((len(gv), 11)), gv[:, 10:]])
    return gv, w, gfull, full


def lit(x):
    return repr(np.asarray(x).tolist())


def check_load(s):
    from pypower.loadcase import loadcase
    from scipy.io import savemat
    d = scratch()
    try:
        c = gen.arr(s['net']['ppc'])
        c['areas'] = np.array([[1.0, c['bus'][0, 0]]])
        bus, g, br = c['bus'], c['gen'], c['branch']
        if s['v1']:
            g, br, gx, bx = v1(g, br, s['res'], s['rnd'])
        else:
            if s['res']:
                br = np.hstack([br, np.outer(np.arange(1, len(br) + 1), s['rnd'][:4])])
            gx, bx = g, br
        data = {'baseMVA': float(c['baseMVA']), 'bus': bus, 'gen': g, 'branch': br, 'areas': c['areas'], 'gencost': c['gencost']}
        base = os.path.join(d, 'the_case')
        if s['bad']:
            return bad(s, d, base, data, loadcase)
        src, call, drop = s['src'], s['call'], s['drop']
        if src == 'pytuple' and not s['v1']:
            src = 'pydict'
        if src == 'pytuple':
            drop = ''
            if call == 'none':
                drop = '4'
        if src == 'matvars' and not s['v1'] and s['ver']:
            pass
        if drop and drop != '4':
            if s['none'] and src in ('dict', 'pydict'):
                data[drop] = None
            else:
                del data[drop]
        if s['ver'] and src in ('dict', 'pydict', 'matstruct'):
            data['version'] = '1' if s['v1'] else '2'
        arg = base
        if src == 'dict':
            arg = {k: v for k, v in data.items()}
        elif src == 'pydict':
            with open(base + '.py', 'w') as f:
                f.write('from numpy import array as make_array\n\ndef the_case():\n    ppc = {}\n')
                for k, v in data.items():
                    f.write('    ppc[%r] = %s\n' % (k, 'make_array(%s)' % lit(v) if isinstance(v, np.ndarray) else repr(v)))
                f.write('    return ppc\n')
        elif src == 'pytuple':
            ks = ['baseMVA', 'bus', 'gen', 'branch'] + ([] if drop == '4' else ['areas', 'gencost'])
            with open(base + '.py', 'w') as f:
                f.write('from numpy import array\n\ndef the_case():\n')
                f.write('    return (%s)\n' % ', '.join('array(%s)' % lit(data[k]) if k != 'baseMVA' else repr(data[k]) for k in ks))
        elif src == 'matstruct':
            savemat(base + '.mat', {s['struct']: data}, oned_as='column')
        else:
            savemat(base + '.mat', data, oned_as='row')
        if src[:3] == 'mat' and s['both']:
            with open(base + '.py', 'w') as f:
                f.write('def the_case():\n    raise ValueError("not this one")\n')
        if isinstance(arg, str) and (s['ext'] or (src[:2] == 'py' and s['both'])):
            arg = base + ('.py' if src[:2] == 'py' else '.mat')
        before = snapshot(arg)
        if call == 'obj':
            r = loadcase(arg)
        elif call == 'all':
            r = loadcase(arg, False)
        elif call == 'noareas':
            r = loadcase(arg, False, True, False)
        else:
            r = loadcase(arg, False, False, False)
        expect(same(before, arg), 'load-modifies', 'loadcase modified its argument')
        need = ['baseMVA', 'bus', 'gen', 'branch'] + (['gencost'] if call in ('all', 'noareas') else []) + (['areas'] if call == 'all' else [])
        if drop in need:
            expect(isinstance(r, int) and r == 5, 'code', 'without %s: returned %s, expected 5' % (drop, r if isinstance(r, int) else type(r)))
            return ['nontrivial', 'missing-data']
        expect(not isinstance(r, int), 'code', 'loadcase failed with %s on a valid %s' % (r, src))
        exp = {'baseMVA': c['baseMVA'], 'bus': bus, 'gen': gx, 'branch': bx, 'areas': c['areas'], 'gencost': c['gencost']}
        if call != 'obj':
            ks = ['baseMVA', 'bus', 'gen', 'branch'] + (['areas'] if call == 'all' else []) + (['gencost'] if call in ('all', 'noareas') else [])
            expect(len(r) == len(ks), 'result', '%d values returned for %s' % (len(r), ks))
            r = dict(zip(ks, r))
        else:
            ks = [k for k in exp if k != drop and not (drop == '4' and k in ('areas', 'gencost'))]
            expect(all(k in r for k in ks), 'result', 'fields %s' % sorted(r))
            expect(str(np.asarray(r['version']).flat[0]) == '2', 'version', 'version is %r' % (r['version'],))
        for k in ks:
            close(r[k], exp[k], 0, 'loaded', '%s from %s (%s, %s)' % (k, src, 'v1' if s['v1'] else 'v2', s['res']))
        if src == 'dict' and drop not in need:
            # the result is a copy
            for k in ('bus', 'gen', 'branch'):
                np.asarray(r[k])[0, 0] += 1000
            expect(same(before, arg), 'alias', 'the loaded case shares arrays with the given one')
        return ['nontrivial', src, 'v1' if s['v1'] else 'v2', call]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bad(s, d, base, data, loadcase):
    b, w = s['bad'], s['what']
    if b == 'type':
        arg, code = [None, 3, 2.5, [1], (1, 2), True][w], 1
    elif b == 'noext':
        arg, code = base, 2
    elif b == 'nomat':
        arg, code = base + '.mat', 3
    elif b == 'nopy':
        arg, code = base + '.py', 4
    else:
        code = 5
        text = {'syntax': 'def the_case(:\n', 'nofunc': 'def other():\n    return {}\n', 'raises': 'def the_case():\n    return no_such_name\n'}.get(b)
        if text is None:
            with open(base + '.mat', 'wb') as f:
                f.write(b'this is not a MAT file' * 20)
        else:
            with open(base + '.py', 'w') as f:
                f.write(text)
        arg = base + ('' if s['ext'] else ('.mat' if text is None else '.py'))
    call = s['call']
    r = loadcase(arg) if call == 'obj' else loadcase(arg, False, call in ('all', 'noareas'), call == 'all')
    expect(isinstance(r, int) and not isinstance(r, bool) and r == code, 'code', '%s: returned %s, expected %d' %
           (b, r if isinstance(r, int) else type(r), code))
    return ['nontrivial', 'bad=' + b]


SUBS = [Sub('roundtrip', gen.spec_strategy(make, size=3600), check, 900, 12000),
        Sub('load', gen.spec_strategy(make_load), check_load, 1000, 12000)]
