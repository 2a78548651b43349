"""P24  Loads are totalled and scaled exactly."""
import copy
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen
from vlib.util import close

ID = 'P24'
RULE = ('random networks with fixed and dispatchable loads (in and out of service, several per bus, negative fixed loads), random zone vectors, '
        'areas or a single zone, all option combinations; oracle: element-by-element sums and scaling; non-trivial = a zone with both kinds of load')


def make(d):
    net = gen.draw_net(d, nb_max=8, force=('areas',) if d.chance(.5) else ())
    ppc = net['ppc']
    nb = len(ppc['bus'])
    e = d.cells(20 * nb + 20)
    for r in ppc['bus']:
        if e.chance(.25):
            r[2] = r[3] = 0.0
        if e.chance(.2):
            r[3] = e.c(-20, 20, 2)
    nld = e.i_(0, 5) if e.chance(.85) else 0
    for k in range(nld):
        c = d.cells(30)
        p = -c.f(1, 60, 2)
        q = c.pick([0.0, c.f(.5, 20, 2), -c.f(.5, 20, 2)])
        b = ppc['bus'][c.i_(0, nb - 1)][0]
        row = [b, round(p * c.f(0, 1, 2), 4), round(q * .5, 4), max(q, 0.0), min(q, 0.0), 1.0, 100.0, c.pick([1, 1, 1, 0, -1]), 0.0, p] + [0.0] * 11
        if c.chance(.1):
            row[8] = 5.0               # not a dispatchable load: can generate
        ppc['gen'].insert(c.i_(0, len(ppc['gen'])), row)
    zmode = d.pick(['none', 'zones', 'all'])
    z = None
    nz = int(max(r[6] for r in ppc['bus']))
    if zmode == 'zones':
        nz = d.i(1, 3)
        e = d.cells(2 * nb)
        z = [e.i_(0, nz) for _ in range(nb)]
        if max(z) == 0:
            z[0] = 1
        nz = max(z)
    if d.chance(.12):
        gen.whole(ppc)
        for r in ppc['bus']:
            r[:] = [float(round(v)) for v in r]
    e = d.cells(60)
    return {'net': net, 'zmode': zmode, 'zones': z, 'nz': nz, 'gen': e.chance(.8), 'which': e.pick([None, 'BOTH', 'FIXED', 'DISPATCHABLE']),
            'pq': e.pick([None, 'PQ', 'P']), 'scale': e.pick([None, 'FACTOR', 'QUANTITY']), 'load': [e.c(-1, 4, 2) for _ in range(max(nz, 1))],
            'ints': e.chance(.2), 'lform': e.pick(['array', 'array', 'one']), 'zfloat': e.chance(.3), 'hit': e.chance(.5)}


def model(spec):
    """(per-bus zone, loads) in plain Python."""
    ppc = spec['net']['ppc']
    idx = {int(r[0]): i for i, r in enumerate(ppc['bus'])}
    ld = [k for k, r in enumerate(ppc['gen']) if r[9] < 0 and r[8] == 0 and r[7] > 0] if spec['gen'] else []
    return ppc, idx, ld


def check_total(spec):
    from pypower.total_load import total_load
    ppc, idx, ld = model(spec)
    case = gen.ints(gen.arr(ppc))
    bus, g = case['bus'], case['gen']
    b0, g0 = bus.astype(float), g.astype(float)
    z = spec['zones']
    if spec['zmode'] == 'all':
        zone, arg = [1] * len(bus), 'all'
    elif z is None:
        zone, arg = [int(r[6]) for r in ppc['bus']], None
    else:
        zone, arg = z, np.array(z, float if spec['zfloat'] else int)
    which = spec['which']
    if not spec['gen']:
        which = None if which in ('BOTH', 'DISPATCHABLE') else which
    if spec['gen']:
        pd, qd = total_load(bus, g, arg, which)
    else:
        pd, qd = total_load(bus, None, arg, which) if which else total_load(bus, load_zone=arg)
    w = (which or ('BOTH' if spec['gen'] else 'FIXED'))[0]
    nz = max(zone)
    P, Q = [0.0] * nz, [0.0] * nz
    for i, r in enumerate(ppc['bus']):
        if zone[i] > 0 and w in 'FB':
            P[zone[i] - 1] += r[2]
            Q[zone[i] - 1] += r[3]
    for k in ld:
        r = ppc['gen'][k]
        i = idx[int(r[0])]
        if zone[i] > 0 and w in 'DB':
            P[zone[i] - 1] -= r[9]
            Q[zone[i] - 1] -= r[4] + r[3]          # one of the two limits is zero
    sc = 1e-9 * (1 + np.abs(bus[:, 2:4]).sum() + np.abs(g[:, [3, 4, 9]]).sum())
    close(np.asarray(pd), np.array(P), sc, 'total-P', 'active load per zone')
    close(np.asarray(qd), np.array(Q), sc, 'total-Q', 'reactive load per zone')
    expect(np.array_equal(bus, b0) and np.array_equal(g, g0), 'mutated', 'the tables were modified')
    labels = ['zmode=' + spec['zmode'], 'which=%s' % which, 'ld=%d' % len(ld)]
    if ld and any(r[2] for r in ppc['bus']):
        labels.append('nontrivial')
    return labels


def check_scale(spec):
    from pypower.scale_load import scale_load, ScalingError
    from pypower.total_load import total_load
    ppc, idx, ld = model(spec)
    case = gen.ints(gen.arr(ppc))
    bus, g = case['bus'], case['gen']
    b0, g0 = bus.astype(float), g.astype(float)
    load = list(spec['load'])
    if spec['ints']:
        load = [int(round(x)) for x in load]
    w = spec['which'] if spec['gen'] else None
    opt = {k: v for k, v in (('which', w), ('pq', spec['pq']), ('scale', spec['scale'])) if v}
    if not opt and spec['ints']:
        opt = None
    z = spec['zones']
    if spec['zmode'] == 'all':
        zone, arg = [1] * len(bus), None
        load = load[:1]
    elif z is None:
        zone, arg = [int(r[6]) for r in ppc['bus']], None
        if max(zone) == 1:
            arg = np.array(zone)
        load = (load + [1.0] * 9)[:max(zone)]
    else:
        zone, arg = z, np.array(z, float if spec['zfloat'] else int)
        load = load[:max(zone)]
    W = (w or ('BOTH' if spec['gen'] else 'FIXED'))[0]
    fix = [0.0] * len(load)
    dis = [0.0] * len(load)
    for i, r in enumerate(ppc['bus']):
        if zone[i]:
            fix[zone[i] - 1] += r[2]
    for k in ld:
        i = idx[int(ppc['gen'][k][0])]
        if zone[i]:
            dis[zone[i] - 1] -= ppc['gen'][k][9]
    quant = spec['scale'] == 'QUANTITY'
    if quant:
        load = [round(x * 40) if spec['ints'] else round(x * 40, 2) for x in load]
    fac, bad = [], False
    for x, f, v in zip(load, fix, dis):
        if not quant:
            fac.append(x)
            continue
        den = {'B': f + v, 'F': f, 'D': v}[W]
        if den == 0 and spec.get('hit'):
            x = load[len(fac)] = {'B': 0.0, 'F': v, 'D': f}[W]       # nothing to scale, and nothing needed
        num = {'B': x, 'F': x - v, 'D': x - f}[W]
        if abs(den) < 1e-6:
            if abs(den) > 0:
                return ['borderline']
            if abs(num) < 1e-9 and num != 0:
                return ['borderline']
            bad = bad or num != 0
            fac.append(1.0)
        else:
            fac.append(num / den)
    opt0 = copy.deepcopy(opt)
    larg = np.array(load) if spec['lform'] == 'array' else np.array(load, float)
    l0 = larg.copy()
    try:
        nb, ng = scale_load(larg, bus, g if spec['gen'] else None, arg, opt)
    except ScalingError:
        expect(bad, 'scaling-error', 'a scaling which is possible is rejected')
        return ['impossible']
    expect(not bad, 'scaling-error', 'impossible scaling accepted: target %s, fixed %s, dispatchable %s' % (load, fix, dis))
    expect(np.array_equal(bus, b0) and np.array_equal(g, g0) and opt == opt0 and np.array_equal(larg, l0), 'mutated', 'the arguments were modified')
    pq = (spec['pq'] or 'PQ') == 'PQ'
    rb, rg = b0.copy(), g0.copy()
    for i in range(len(rb)):
        if zone[i] and W in 'FB':
            rb[i, 2] *= fac[zone[i] - 1]
            if pq:
                rb[i, 3] *= fac[zone[i] - 1]
    for k in ld:
        i = idx[int(rg[k, 0])]
        if zone[i] and W in 'DB':
            rg[k, [1, 9]] *= fac[zone[i] - 1]
            if pq:
                rg[k, [2, 3, 4]] *= fac[zone[i] - 1]
    sc = 1 + max([abs(x) for x in fac])
    close(nb, rb, 1e-9 * sc * 100, 'scale-bus', 'scaled bus table', rel=1e-10)
    if spec['gen']:
        close(ng, rg, 1e-9 * sc * 100, 'scale-gen', 'scaled generator table', rel=1e-10)
        if quant:
            P, Q = total_load(nb, g0 if W == 'F' else ng, np.array(zone))
            for k, x in enumerate(load):
                if W == 'B' and fac[k] <= 0 or W == 'D' and fac[k] <= 0:
                    continue         # no longer recognised as loads
                expect(abs(P[k] - x) < 1e-7 * sc * 100, 'target', 'zone %d has load %r, target %r' % (k + 1, P[k], x))
    labels = ['zmode=' + spec['zmode'], 'which=%s' % W, 'pq=%s' % pq, 'quant=%s' % quant]
    if any(f and v for f, v in zip(fix, dis)):
        labels.append('nontrivial')
    return labels


SUBS = [Sub('total', gen.spec_strategy(make), check_total, 1600, 24000),
        Sub('scale', gen.spec_strategy(make), check_scale, 3200, 48000)]
