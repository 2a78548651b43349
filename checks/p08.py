"""P08  Network matrices describe the network."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import close, same, snapshot, dense, base_labels

ID = 'P08'
RULE = ('random internal-numbered networks incl. parallel, out-of-service, off-nominal and phase-shifting branches and bus '
        'shunts; oracle: matrices stamped element by element; non-trivial = a transformer, shunt, parallel or '
        'out-of-service element present')


def make(d):
    net = gen.draw_net(d, nb_max=10)
    for r in net['ppc']['branch']:
        if d.chance(.15):
            r[8] = d.cf(.7, 1.4)
        if d.chance(.15):
            r[9] = d.cf(-170, 170, 2)
        if d.chance(.08):
            r[3] = -r[3]
    return {'net': net}


def check(spec):
    from pypower.makeYbus import makeYbus
    from pypower.makeBdc import makeBdc
    from pypower.makeSbus import makeSbus
    from pypower.makeB import makeB
    from pypower.bustypes import bustypes
    net = spec['net']
    base, bus, g, br, L0 = gen.internal(net['ppc'], keep_off=True)
    args = snapshot((bus, g, br))
    L = ref.Live({'baseMVA': base, 'bus': bus, 'gen': g, 'branch': br})
    Ybus, Yf, Yt = makeYbus(base, bus, br)
    nl = len(br)
    big = 1 + np.abs(L.ybus()).max()
    close(dense(Ybus), L.ybus(), 1e-11 * big, 'Ybus', 'bus admittance matrix')
    wf, wt = np.zeros((nl, L.n), complex), np.zeros((nl, L.n), complex)
    for k, f, t in zip(L.br, L.F, L.T):
        a, b, c, e = ref.branch_y(br[k])
        wf[k, f] += a
        wf[k, t] += b
        wt[k, f] += c
        wt[k, t] += e
    close(dense(Yf), wf, 1e-11 * big, 'Yf', 'from-end admittance matrix')
    close(dense(Yt), wt, 1e-11 * big, 'Yt', 'to-end admittance matrix')
    B, Bf, Pb, Pf = makeBdc(base, bus, br)
    b, bf, pf, pb = L.dc()
    wbf, wpf = np.zeros((nl, L.n)), np.zeros(nl)
    if L.br:
        wbf[L.br], wpf[L.br] = bf, pf
    big = 1 + np.abs(b).max()
    close(dense(B), b, 1e-11 * big, 'Bbus', 'DC bus matrix')
    close(dense(Bf), wbf, 1e-11 * big, 'Bf', 'DC branch matrix')
    close(Pf, wpf, 1e-11 * big, 'Pfinj', 'phase-shift flow injections')
    close(Pb, pb, 1e-11 * big, 'Pbusinj', 'phase-shift bus injections')
    close(makeSbus(base, bus, g), L.sbus(), 1e-11 * (1 + np.abs(L.sbus()).max()), 'Sbus', 'bus injections')
    for alg in (2, 3):
        bp, bpp = makeB(base, bus, br, alg)
        wp, wpp = ref.fd_matrices(L, alg)
        close(dense(bp), wp, 1e-11 * (1 + np.abs(wp).max()), 'Bp', "B' (alg %d)" % alg)
        close(dense(bpp), wpp, 1e-11 * (1 + np.abs(wpp).max()), 'Bpp', "B'' (alg %d)" % alg)
    r, v, q = bustypes(bus, g)
    expect(sorted(map(int, r)) == L.refs, 'bustypes', 'reference buses %s vs %s' % (list(r), L.refs))
    expect(sorted(map(int, v)) == L.pv, 'bustypes', 'PV buses %s vs %s' % (list(v), L.pv))
    expect(sorted(map(int, q)) == L.pq, 'bustypes', 'PQ buses %s vs %s' % (list(q), L.pq))
    if L.pv and L.refs:
        # the units at the reference buses are shut down: the first remaining PV bus takes over
        g2 = g.copy()
        g2[[k for k in range(len(g)) if int(g[k, 0]) in L.refs], 7] = 0
        r, v, q = bustypes(bus, g2)
        expect(list(map(int, r)) == L.pv[:1], 'new-reference', 'no unit at the reference buses %s, PV buses %s: reference %s' % (L.refs, L.pv, list(r)))
        expect(sorted(map(int, v)) == L.pv[1:], 'new-reference', 'PV buses after the move: %s of %s' % (list(v), L.pv))
        expect(sorted(map(int, q)) == sorted(L.pq + L.refs), 'new-reference', 'PQ buses after the move: %s' % list(q))
    expect(same((bus, g, br), args), 'mutated', 'a matrix builder changed its arguments')
    labels = base_labels(net, L)
    if len(L.br) < nl or set(net['feats']) & {'taps', 'shifts', 'shunts', 'parallel'}:
        labels.append('nontrivial')
    return labels


SUBS = [Sub('stamp', gen.spec_strategy(make), check, 4000, 60000)]
