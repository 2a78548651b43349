"""P09  PTDF and LODF predict re-solved DC flows."""
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import close, same, snapshot, dense, base_labels

ID = 'P09'
RULE = ('random networks with random slack choice (default, single bus, weight vector, per-injection matrix); oracle: brute-force '
        're-solution of the DC network for every injection and every single-branch outage that keeps the network connected; '
        'non-trivial = at least one loop (an outage with finite redistribution)')


def make(d):
    net = gen.draw_net(d, nb_max=8, nb_min=2, forbid=('multiref',), force=('parallel',) if d.chance(.4) else ())
    base, bus, g, br, L = gen.internal(net['ppc'], keep_off=True)
    n = L.n
    mode = d.pick(['default', 'scalar', 'vector', 'unnormalised', 'matrix'])
    c = d.cells(2 * n * n + 8)
    sl = None
    if mode == 'scalar':
        sl = c.i_(0, n - 1)
    elif mode in ('vector', 'unnormalised'):
        w = [c.f(0, 1, 3) if c.chance(.7) else 0.0 for _ in range(n)]
        k = c.i_(0, n - 1)
        w[k] += 1.0
        if c.chance(.3) and n > 1:      # weights of either sign
            i = (k + c.i_(1, n - 1)) % n
            w[i] = -c.f(0, .45, 3)
        s = sum(w)
        sl = w if mode == 'unnormalised' else [x / s for x in w]
    elif mode == 'matrix':
        sl = [[0.0] * n for _ in range(n)]
        for k in range(n):
            w = [c.f(.0, 1, 3) for _ in range(n)]
            w[k] += .5
            s = sum(w)
            for i in range(n):
                sl[i][k] = (1.0 if i == k else 0.0) - w[i] / s
    return {'net': net, 'mode': mode, 'slack': sl, 'neg': d.chance(.1)}


def check(spec):
    from pypower.makePTDF import makePTDF
    from pypower.makeLODF import makeLODF
    net = spec['net']
    base, bus, g, br, L0 = gen.internal(net['ppc'], keep_off=True)
    L = ref.Live({'baseMVA': base, 'bus': bus, 'gen': g, 'branch': br})
    n, nl = L.n, len(br)
    b, bf, pf, pb = L.dc()
    Bf = np.zeros((nl, n))
    if L.br:
        Bf[L.br] = bf
    args = snapshot((bus, br))
    if spec['slack'] is None:
        H = makePTDF(base, bus, br)
        s = [i for i in range(n) if bus[i, 1] == 3][0]
    elif spec['mode'] == 'scalar':
        s = spec['slack']
        H = makePTDF(base, bus, br, s)
    else:
        s = np.array(spec['slack'], float)
        s0 = s.copy()
        H = makePTDF(base, bus, br, s)
        close(s, s0, 0, 'mutated', 'slack argument')
    H = np.asarray(H)
    expect(same((bus, br), args), 'mutated', 'makePTDF changed its arguments')
    expect(H.shape == (nl, n), 'shape', str(H.shape))
    want = np.zeros((nl, n))
    for k in range(n):
        inj = np.zeros(n)
        if spec['mode'] == 'matrix':
            inj = s[:, k].copy()
        else:
            inj[k] += 1
            if np.ndim(s) == 0:
                inj[s] -= 1
            else:
                inj -= s / s.sum()
        th = np.zeros(n)
        th[1:] = np.linalg.solve(b[1:, 1:], inj[1:])
        want[:, k] = Bf @ th
    sc = 1 + np.abs(want).max()
    close(H, want, 1e-8 * sc, 'ptdf', 'PTDF vs re-solved flows (%s slack)' % spec['mode'])
    labels = base_labels(net, L) + ['slack=' + spec['mode']]
    if spec['mode'] == 'matrix':
        return labels + ['nontrivial']
    # outages; base flows from the generated dispatch, balanced at bus 0
    with np.errstate(all='ignore'):
        F = np.asarray(makeLODF(br, H))
    expect(F.shape == (nl, nl), 'shape', 'LODF %s' % (F.shape,))
    inj = L.sbus().real - L.Ysh.real - pb
    th = np.zeros(n)
    th[1:] = np.linalg.solve(b[1:, 1:], inj[1:])
    f0 = Bf @ th
    if L.br:
        f0[L.br] += pf
    loops = 0
    for j, k in enumerate(L.br):
        br2 = br.copy()
        br2[k, 10] = 0
        L2 = ref.Live({'baseMVA': base, 'bus': bus, 'gen': g, 'branch': br2})
        b2, bf2, pf2, pb2 = L2.dc()
        if n > 1 and np.linalg.cond(b2[1:, 1:]) > 1e8:
            continue                # islanding outage: the factors are not defined
        loops += 1
        inj2 = L2.sbus().real - L2.Ysh.real - pb2
        th2 = np.zeros(n)
        th2[1:] = np.linalg.solve(b2[1:, 1:], inj2[1:])
        f2 = np.zeros(nl)
        f2[L2.br] = bf2 @ th2 + pf2
        sc = 1 + np.abs(f0).max() + np.abs(f2).max()
        close(f0 + F[:, k] * f0[k], f2, 1e-7 * sc, 'lodf', 'post-outage flows of branch %d' % k)
        expect(abs(F[k, k] + 1) < 1e-9, 'lodf-diagonal', 'LODF[k,k] = %r' % F[k, k])
    labels.append('loops' if loops else 'radial')
    if loops:
        labels.append('nontrivial')
    return labels


SUBS = [Sub('factors', gen.spec_strategy(make), check, 2400, 40000)]
