"""P03  DC power flow solves the linear DC network model exactly."""
import math
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import opts, close, base_labels, gen_schedule_kept

ID = 'P03'
RULE = ('random networks (taps, shifters, shunts, islands removed, several generators per bus, multiple reference buses) '
        'solved by rundcpf / runpf(PF_DC=1); oracle: independent dense solve of the element-by-element DC model; '
        'non-trivial = three or more energised buses and a shifter, tap, shunt or out-of-service element present')


def make(d):
    net = gen.draw_net(d, nb_max=10, stress=2.0)
    for r in net['ppc']['bus']:
        if d.chance(.2):
            r[2] = d.cf(-80, 120, 2)
    gen.perturb_start(d, net['ppc'], .1, 20)
    spec = {'net': net, 'via': d.pick(['rundcpf', 'runpf']), 'cols': d.pick([13, 17, 21]),
            'negx': None}
    on = [i for i, r in enumerate(net['ppc']['branch']) if r[10]]
    if d.chance(.1) and len(on) > len(net['ppc']['bus']):
        spec['negx'] = 1
        net['ppc']['branch'][on[-1]][3] = -0.9        # series-compensated line
    if net['ppc']['baseMVA'] >= 50 and d.chance(.1):
        gen.whole(net['ppc'])
        for r in net['ppc']['bus']:
            r[:] = [float(round(v)) for v in r]
        net['feats'].append('wholegen')
    return spec


def check(spec):
    from pypower.runpf import runpf
    from pypower.rundcpf import rundcpf
    net = spec['net']
    ppc = net['ppc']
    L = ref.Live(ppc)
    case = gen.ints(gen.arr(ppc))
    k = spec['cols'] - 13
    case['branch'] = np.hstack([case['branch'], np.full((len(case['branch']), k), 7.5)])
    B, Bf, Pf, Pb = L.dc()
    others = [i for i in range(L.n) if i not in L.refs]
    if len(others) and np.linalg.cond(B[np.ix_(others, others)]) > 1e7:
        return ['ill']
    if spec['via'] == 'rundcpf':
        res, ok = rundcpf(case, opts())
    else:
        res, ok = runpf(case, opts(PF_DC=True))
    expect(bool(ok) and bool(res['success']), 'dc-success', 'a DC power flow must succeed')
    Pinj = L.sbus().real - L.Ysh.real
    va = L.bus[L.rows, 8] * math.pi / 180
    rhs = (Pinj - Pb)[others] - B[np.ix_(others, L.refs)] @ va[L.refs]
    if others:
        va[others] = np.linalg.solve(B[np.ix_(others, others)], rhs)
    sc = 1.0 + np.abs(Pinj).max() * L.base + np.abs(va).max()
    bus, g, br = res['bus'], res['gen'], res['branch']
    close(bus[L.rows, 8] * math.pi / 180, va, 1e-8 * (1 + np.abs(va).max()), 'angle', 'bus angles (rad)')
    close(bus[L.rows, 7], np.ones(L.n), 0, 'vm', 'voltage magnitudes')
    fl = (Bf @ va + Pf) * L.base
    if L.br:
        t = 1e-7 * (sc + np.abs(fl).max())
        close(br[L.br, 13], fl, t, 'flow', 'Pf')
        close(br[L.br, 15], -fl, t, 'flow', 'Pt')
        close(br[L.br][:, [14, 16]], np.zeros((len(L.br), 2)), 0, 'qflow', 'Q flows')
    close(br[L.brout][:, 13:17], np.zeros((len(L.brout), 4)), 0, 'off-branch', 'flows of out-of-service branches')
    # dispatch: one unit at each reference bus moves, and closes the balance there
    pnet = (B @ va + Pb) * L.base + (L.Sd.real + L.Ysh.real) * L.base
    gen_schedule_kept(L, g)
    for i in L.refs:
        close(sum(g[q, 1] for q in L.gens_at[i]), pnet[i], 1e-7 * sc * 10, 'slack-balance', 'total generation at the reference bus')
    if L.gout:
        close(g[L.gout][:, [1, 2]], np.zeros((len(L.gout), 2)), 0, 'off-gen', 'output of out-of-service generators')
    # inputs carried through unchanged
    close(bus[:, :7], L.bus[:, :7], 0, 'bus-data', 'bus input columns')
    close(br[:, :13], L.branch[:, :13], 0, 'branch-data', 'branch input columns')
    close(g[:, [0, 3, 4, 5, 6, 7, 8, 9]], L.gen[:, [0, 3, 4, 5, 6, 7, 8, 9]], 0, 'gen-data', 'generator input columns')
    labels = base_labels(net, L) + ['refs=%d' % len(L.refs)]
    if L.n >= 3 and set(net['feats']) & {'taps', 'shifts', 'shunts', 'offbr', 'isolated', 'multigen'}:
        labels.append('nontrivial')
    return labels


SUBS = [Sub('dc', gen.spec_strategy(make), check, 4000, 60000)]
