"""P04  The reported AC power flow state is internally consistent."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import opts, close, voltages, base_labels, gen_schedule_kept

ID = 'P04'
RULE = ('random networks with known operating point solved by the AC power flow; oracle: branch flows, generator '
        'reactive sharing and slack output recomputed from the reported voltages with an element-by-element model; '
        'non-trivial = a bus with several in-service generators, an out-of-service element or an isolated bus is present')


def make(d):
    net = gen.draw_net(d, nb_max=8, force=('multigen',) if d.chance(.6) else ())
    gen.perturb_start(d, net['ppc'], .02, 2.0)
    rng0 = d.chance(.3)
    for r in net['ppc']['gen']:
        c = d.cells(8)
        if rng0 and c.chance(.6):
            r[3] = r[4] = c.c(-20, 20, 1)
        elif c.chance(.1):
            r[4], r[3] = round(r[3] + c.f(1, 30, 1), 2), round(r[3] + 80.0, 2)
    if d.chance(.25):
        for r in net['ppc']['gen']:
            c = d.cells(4)
            k = c.i_(0, 4)
            if k in (1, 3):
                r[3] = 'inf'
            if k in (2, 3):
                r[4] = '-inf'
    if not rng0 and net['ppc']['baseMVA'] >= 50 and d.chance(.12):
        gen.whole(net['ppc'])
        net['feats'].append('wholegen')
    # branch tables may already carry (stale) result columns
    return {'net': net, 'cols': d.pick([13, 13, 15, 16, 17, 21]), 'stale': d.cf(-50, 50, 1), 'alg': d.pick([1, 1, 1, 2])}


def check(spec):
    from pypower.runpf import runpf
    net = spec['net']
    ppc = net['ppc']
    L = ref.Live(ppc)
    case = gen.ints(gen.arr(ppc))
    k = spec['cols'] - 13
    case['branch'] = np.hstack([case['branch'], np.full((len(case['branch']), k), spec['stale'])])
    res, ok = runpf(case, opts(PF_ALG=spec['alg'], PF_TOL=1e-10))
    labels = base_labels(net, L)
    bus, g, br = res['bus'], res['gen'], res['branch']
    expect(bus.shape[0] == len(L.bus) and g.shape[0] == len(L.gen) and br.shape[0] == len(L.branch), 'shape')
    expect(br.shape[1] >= 17, 'cols', 'no room for branch flows in %s' % (br.shape,))
    V = voltages(L, bus)
    if not ok or not np.all(np.isfinite(V)) or np.abs(V).max() > 3:
        return labels + ['failed']
    Sf, St = L.flows(V)
    Sinj = V * np.conj(L.ybus() @ V) * L.base
    big = 1 + np.abs(Sinj).max() + (np.abs(Sf).max() if len(Sf) else 0)
    tol = 1e-8 * big * 10
    if L.br:
        close(br[L.br, 13] + 1j * br[L.br, 14], Sf, tol, 'from-flow', 'complex flow at the from end')
        close(br[L.br, 15] + 1j * br[L.br, 16], St, tol, 'to-flow', 'complex flow at the to end')
    close(br[L.brout][:, 13:17], np.zeros((len(L.brout), 4)), 0, 'off-branch', 'flows of out-of-service branches')
    close(g[L.gout][:, [1, 2]], np.zeros((len(L.gout), 2)), 0, 'off-gen', 'output of out-of-service generators')
    gen_schedule_kept(L, g)
    shared = False
    for i in range(L.n):
        gl = L.gens_at[i]
        if not gl:
            continue
        need = Sinj[i] + L.Sd[i] * L.base
        got = sum(g[q, 1] + 1j * g[q, 2] for q in gl)
        close(got.imag, need.imag, tol, 'Q-balance', 'total reactive output at bus %d' % L.bus[L.rows[i], 0])
        if i in L.refs:
            close(got.real, need.real, tol, 'slack-P', 'active output at the reference bus')
        if len(gl) > 1:
            shared = True
            lo = np.array([L.gen[q, 4] for q in gl])
            hi = np.array([L.gen[q, 3] for q in gl])
            if not np.isfinite(hi - lo).all():
                # an unlimited unit is there: the split is free as long as it respects the limits
                q = np.array([g[j, 2] for j in gl])
                expect(bool(np.isfinite(q).all()), 'Q-share', lambda: 'reactive outputs %s' % q)
                expect(bool(np.all(q >= lo - tol * 10) and np.all(q <= hi + tol * 10)) or bool(np.any(lo > hi))
                       or not lo.sum() <= need.imag <= hi.sum(),
                       'Q-share', lambda: 'reactive outputs %s outside [%s, %s], total %g' % (q, lo, hi, need.imag))
                continue
            if abs((hi - lo).sum()) < 1e-9:
                want = np.full(len(gl), need.imag / len(gl))
            elif (hi - lo).sum() > 1e-3:
                want = lo + (need.imag - lo.sum()) / (hi - lo).sum() * (hi - lo)
            else:
                continue
            close([g[q, 2] for q in gl], want, tol * 10, 'Q-share', 'reactive output split between the units at one bus')
    close(bus[:, :7], L.bus[:, :7], 0, 'bus-data', 'bus input columns')
    close(bus[:, 9:13], L.bus[:, 9:13], 0, 'bus-data', 'bus input columns')
    close(br[:, :13], L.branch[:, :13], 0, 'branch-data', 'branch input columns')
    ix = [0, 3, 4, 5, 6, 7, 8, 9]
    expect(np.array_equal(g[:, ix], L.gen[:, ix]), 'gen-data', lambda: 'generator input columns changed: %s, given %s' % (g[:, ix], L.gen[:, ix]))
    iso = [k_ for k_ in range(len(L.bus)) if k_ not in L.rows]
    close(bus[iso], L.bus[iso], 0, 'isolated-bus', 'rows of isolated buses')
    if shared or L.brout or L.gout or iso:
        labels.append('nontrivial')
    if shared:
        labels.append('shared-bus')
    return labels


SUBS = [Sub('ac', gen.spec_strategy(make), check, 3200, 50000)]
