"""P07  Solutions do not depend on how the case is written down, and inputs are left alone."""
import copy
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, dcopf, rewrite
from vlib.util import opts, close, same, snapshot, base_labels, wrapdeg

ID = 'P07'
RULE = ('random networks and one random rewriting of each: buses renumbered, rows of any table permuted, plain branches written from the other end, ratio 0/1, '
        'out-of-service elements and isolated buses added or removed, result columns present, any non-positive status; solved both ways by AC power flow (four '
        'methods, with and without reactive limits), DC power flow and AC and DC OPF, also starting from the solved case. Oracle: the two solutions agree through '
        'the row map; case and options untouched. Non-trivial: both solved')
TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-8, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)


def make(d, mode):
    opf = mode in ('acopf', 'dcopf')
    net = gen.draw_net(d, nb_max=6 if opf else 9, stress=.7 if opf else 1.0)
    if mode == 'dcopf':
        dcopf.add_dcopf(d, net)
    elif mode == 'acopf':
        acopf.add_opf(d, net, pqcap=.15, disp=.3, qcost=.3)
    ppc = net['ppc']
    s = {'mode': mode, 'tight': d.chance(.7), 'alg': d.pick([1, 1, 2, 3, 4] if mode == 'pf' else [0, 0, 1]), 'kind': d.pick([0, 0, 1, 2]),
         'qlim': d.pick([0, 0, 0, 1, 2]) if mode == 'pf' else 0, 'again': d.chance(.3)}
    if mode == 'pf':
        if s['qlim']:
            for r in ppc['gen']:
                if d.chance(.3):
                    r[3] = d.f(0, .3) * ppc['baseMVA']
                if d.chance(.2):
                    r[4] = min(r[3], -d.f(0, .3) * ppc['baseMVA'])
                elif r[4] > r[3]:
                    r[4] = r[3]
        elif s['alg'] != 4 and d.chance(.5):
            gen.perturb_start(d, ppc)
    if 'multiref' in net['feats']:
        s['qlim'] = 0           # (refused)
    if d.chance(.2):
        ppc['areas'] = [[i + 1, r[0]] for i, r in enumerate(ppc['bus'][:3])]
    w, steps = rewrite.draw(d, ppc)
    s.update(net=net, steps=steps, two={k: getattr(w, k) for k in ('ppc', 'bus', 'gen', 'branch')}, flip=sorted(w.flip),
             number=sorted(w.number.items()))
    return s


def options(s):
    if s['mode'] == 'pf':
        return opts(PF_ALG=s['alg'], PF_TOL=1e-10, PF_MAX_IT=20, PF_MAX_IT_FD=150, PF_MAX_IT_GS=5000, ENFORCE_Q_LIMS=s['qlim'])
    if s['mode'] == 'dcpf':
        return opts(PF_DC=s['alg'] == 1)
    k = dict(TIGHT if s['tight'] else {}, OPF_FLOW_LIM=s['kind'])
    if s['mode'] == 'dcopf':
        k.update(PF_DC=1, OPF_ALG_DC=250 if s['alg'] else 0)
    else:
        k.update(OPF_ALG=565 if s['alg'] else 0)
    return opts(**k)


def run(s, case, o):
    from pypower.api import runpf, rundcpf, runopf, rundcopf
    b, ob = snapshot(case), dict(o)
    if s['mode'] == 'pf':
        res = runpf(case, o)[0]
    elif s['mode'] == 'dcpf':
        res = (runpf if o['PF_DC'] else rundcpf)(case, o)[0]
    elif s['mode'] == 'dcopf':
        res = (rundcopf if s['alg'] == 0 else runopf)(case, o)
    else:
        res = runopf(case, o)
    expect(same(b, case), 'input-modified', 'the case passed in was modified')
    expect(same(ob, dict(o)), 'options-modified', 'the options passed in were modified')
    return res


def jig(ppc, eps):
    """The case with loads moved by a hair."""
    p = copy.deepcopy(ppc)
    for i, r in enumerate(p['bus']):
        r[2] *= 1 + eps * ((i * 7) % 5 - 2)
    return p


def check(s):
    one, two = s['net']['ppc'], s['two']['ppc']
    o = options(s)
    c1, c2 = gen.arr(one), gen.arr(two)
    r1, r2 = run(s, c1, o), run(s, c2, o)
    L = ref.Live(one)
    ok = bool(r1['success']), bool(r2['success'])
    labels = base_labels(s['net'], L) + sorted(set('step=' + t for t in s['steps'])) + ['ok=%d%d' % ok, 'alg=%s' % s['alg']]
    # the rewritten case comes back as written
    for t, cols in (('bus', [0, 2, 3, 4, 5, 6, 9, 10, 11, 12]), ('gen', [0, 3, 4, 6, 7, 8, 9]), ('branch', list(range(13)))):
        for c, r, n in ((c1, r1, 1), (c2, r2, 2)):
            m = c[t][:, cols]
            expect(np.array_equal(m, r[t][:, cols]) if not s['qlim'] else not r['success'] or np.allclose(m, r[t][:, cols], 1e-12, 1e-9), 'data', lambda: '%s data of writing %d come back changed' % (t, n))
    for c, r in ((c1, r1), (c2, r2)):
        expect('areas' not in c or len(c['areas']) == 0 or same(c['areas'], r['areas']), 'data', 'areas come back changed')
    if ok[0] != ok[1]:
        # not the same fate: only a defect if it is not a coin toss
        good, bad = (one, two) if ok[0] else (two, one)
        if all(run(s, gen.arr(jig(good, e)), o)['success'] for e in (1e-9, -1e-8, 1e-7, -1e-6)) and \
                not any(run(s, gen.arr(jig(bad, e)), o)['success'] for e in (1e-9, -1e-8, 1e-7, -1e-6)):
            if s['alg'] != 4 and s['tight'] is False or s['mode'] in ('pf', 'dcpf') and s['alg'] != 4:
                raise Violation('fate', 'writing one: success=%s, writing two: success=%s (robustly)' % ok)
        return labels + ['fates-differ']
    if not ok[0]:
        return labels + ['both-fail']
    if s['qlim']:
        # a new reference bus depends on the order of rows
        if any(int(r1['bus'][k, 1]) != 3 for k in L.rows if int(L.bus[k, 1]) == 3):
            return labels + ['new-ref']
    compare(s, L, r1, r2, 'rewritten')
    if s['again'] and not s['qlim']:
        r3 = run(s, {k: r2[k] for k in c2}, o)
        if not (r3['success'] or s['mode'] in ('acopf', 'dcopf')) and s['alg'] != 4:
            raise Violation('again', 'solving the solved case again fails')
        if r3['success']:
            compare(s, L, r1, r3, 'solved again')
    return labels + ['nontrivial']


def compare(s, L, r1, r2, what):
    base = L.base
    two = s['two']
    opf = s['mode'] in ('acopf', 'dcopf')
    back = {t: {o: k for k, o in enumerate(two[t]) if o is not None} for t in ('bus', 'gen', 'branch')}
    v, p = (1e-6, 2e-5 * base) if s['mode'] == 'pf' else (1e-8, 1e-7 * base)
    rows = [back['bus'][k] for k in L.rows]
    g2 = [back['gen'][k] for k in L.g]
    b2 = [back['branch'][k] for k in L.br]
    if opf:
        f1, f2 = r1['f'], r2['f']
        t = 2e-4 if not s['tight'] else 2e-6
        sl = base * (60 if not s['tight'] else .6) * 1e-3
        close(f2, f1, t * (1 + abs(f1)) + sl, 'cost', 'cost of the %s case' % what)
        if s['tight']:
            close(r2['gen'][g2, 1], r1['gen'][L.g, 1], 1e-3 * base, 'opf-pg', 'dispatch, %s' % what)
            close(r2['bus'][rows, 7], r1['bus'][L.rows, 7], 1e-4, 'opf-vm', 'voltages, %s' % what)
        return
    A, B = r1['bus'][L.rows], r2['bus'][rows]
    sc = 1 + np.abs(r1['branch'][L.br, 13:17]).max() / base if L.br else 1.0
    close(B[:, 7], A[:, 7], v, 'vm', 'voltage magnitude, %s' % what)
    close(wrapdeg(B[:, 8] - A[:, 8]), np.zeros(L.n), v * 60 * sc, 'va', 'angle, %s' % what)
    for i in range(L.n):
        at = [j for j, b in enumerate(L.gb) if b == i]
        P = sum(r1['gen'][L.g[j], 1] for j in at), sum(r2['gen'][g2[j], 1] for j in at)
        Q = sum(r1['gen'][L.g[j], 2] for j in at), sum(r2['gen'][g2[j], 2] for j in at)
        close(P[1], P[0], p * sc, 'pg', 'generation at bus %d, %s' % (L.bus[L.rows[i], 0], what))
        close(Q[1], Q[0], p * sc, 'qg', 'reactive generation at bus %d, %s' % (L.bus[L.rows[i], 0], what))
        if i not in L.refs:
            for j in at:
                close(r2['gen'][g2[j], 1], r1['gen'][L.g[j], 1], 0, 'pg', 'output of unit %d, %s' % (L.g[j], what))
        if s['mode'] == 'pf' and not s['qlim']:
            for j in at:
                close(r2['gen'][g2[j], 2], r1['gen'][L.g[j], 2], p * sc * 3, 'qg', 'reactive output of unit %d, %s' % (L.g[j], what))
    for k, j in zip(L.br, b2):
        a, b = r1['branch'][k, 13:17], r2['branch'][j, 13:17]
        if k in s['flip']:
            b = b[[2, 3, 0, 1]]
        close(b, a, p * sc * 3, 'flow', 'flow of branch %d, %s' % (k, what))
    out = [k for k in range(len(two['ppc']['branch'])) if k not in b2]
    close(r2['branch'][out, 13:17], np.zeros((len(out), 4)), 0, 'off-branch', 'flows of branches out of service')


SUBS = [Sub('pf', gen.spec_strategy(make, 'pf'), check, 700, 14000),
        Sub('dcpf', gen.spec_strategy(make, 'dcpf'), check, 400, 8000),
        Sub('dcopf', gen.spec_strategy(make, 'dcopf'), check, 300, 7000),
        Sub('acopf', gen.spec_strategy(make, 'acopf'), check, 130, 4000)]
