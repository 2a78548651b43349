"""P27  The printed report states the solution."""
import copy
import io
import math
import re
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, dcopf
from vlib.util import opts, same, snapshot

ID = 'P27'
RULE = ('reports of random solved and failed power flows and OPFs (AC and DC, three kinds of flow limits, dispatchable loads, areas, isolated and out-of-service '
        'elements) under random report options; every number of every section is parsed and compared with the results, losses with the balance of the branch '
        'flows. Non-trivial: at least two sections were printed')
CTOL, PTOL = 5e-6, 1e-4


def make(d, kind):
    net = gen.draw_net(d, nb_max=7, stress=.9)
    if kind == 'acopf':
        acopf.add_opf(d, net, tight=.5, pqcap=.1, disp=.5, qcost=.2)
    elif kind == 'dcopf':
        dcopf.add_dcopf(d, net)
    else:
        gen.perturb_start(d, net['ppc'])
        if d.chance(.3):
            for r in net['ppc']['gen']:         # loads modelled as units
                if r[1] < 0 and d.chance(.6):
                    r[8], r[9] = 0.0, min(r[1] * 1.2, -1.0)
    if d.chance(.5):
        for r in net['ppc']['bus']:
            r[6] = d.pick([1, 1, 2, 5, 7])
    e = d.cells(40)
    o = {'OUT_ALL': e.pick([-1, -1, -1, -1, 1, 1, 0])}
    for n in ('OUT_SYS_SUM', 'OUT_AREA_SUM', 'OUT_BUS', 'OUT_BRANCH', 'OUT_GEN'):
        o[n] = e.chance(.5)
    o['OUT_ALL_LIM'] = e.pick([-1, -1, -1, 0, 1, 2])
    for n in ('OUT_V_LIM', 'OUT_LINE_LIM', 'OUT_PG_LIM', 'OUT_QG_LIM'):
        o[n] = e.pick([0, 1, 1, 2])
    if e.chance(.08):
        o.update(OUT_ALL=-1, OUT_SYS_SUM=False, OUT_AREA_SUM=False, OUT_BUS=False, OUT_BRANCH=False, OUT_GEN=False)
    return {'net': net, 'kind': kind, 'o': o, 'flow': e.pick([0, 0, 1, 2]), 'fail': e.chance(.12), 'tol': e.pick([5e-6, 5e-6, 1e-4]),
            'arrays': e.chance(.3), 'alg': e.pick([1, 1, 2, 4]), 'again': e.chance(.2),
            'edit': None if e.chance(.6) else [e.pick(['V', 'P', 'Q', 'P', 'Q', 'L']), e.i_(0, 30), e.chance(.5), e.pick([0, .5, .5, 2, 4]), e.pick([0, 0, .5, 3])],
            'spin': e.chance(.3)}


def retouch(s, r, tol):
    """Results in which (nearly) everything is away from its limits but for one quantity, a given number of tolerances away from one limit."""
    bus, g, br = [np.array(r[k], float) for k in ('bus', 'gen', 'branch')]
    what, k, low, off, price = s['edit']
    bus[:, 11], bus[:, 12] = bus[:, 7] + .1, bus[:, 7] - .1
    bus[:, 15:17] = 0
    load = (g[:, 9] < 0) & (g[:, 8] == 0)
    g[:, 3], g[:, 4] = g[:, 2] + 10, g[:, 2] - 10
    g[:, 21:25] = 0
    g[:, 9] = np.where(load, np.minimum(g[:, 1], 0) - 10, g[:, 1] - 10)
    g[:, 8] = np.where(load, 0, g[:, 1] + 10)
    g[load, 1] = np.minimum(g[load, 1], -1)     # (the upper limit of a load is zero)
    br[:, 5] = 0
    br[:, 17:21] = 0
    off, price = off * tol, price * PTOL * 10
    if what == 'V':
        i = k % len(bus)
        bus[i, 12 if low else 11] = bus[i, 7] + (-off if low else off)
        bus[i, 16 if low else 15] = price
    elif what == 'L' and len(br):
        i = k % len(br)
        fl = r['branch'][i, 13:17] if s['flow'] == 1 or s['kind'] == 'dcopf' else None
        if fl is None:
            F = [np.hypot(br[i, a], br[i, a + 1]) for a in (13, 15)]
            if s['flow'] == 2:
                pos = {int(b[0]): b[7] for b in bus}
                F = [F[0] / pos[int(br[i, 0])], F[1] / pos[int(br[i, 1])]]
        else:
            F = [abs(fl[0]), abs(fl[2])]
        br[i, 5] = max(F) + off
        br[i, 17 if low else 18] = price
    else:
        ons = np.flatnonzero(g[:, 7] > 0)
        if len(ons):
            i = ons[k % len(ons)]
            if what == 'Q':
                g[i, 4 if low else 3] = g[i, 2] + (-off if low else off)
                g[i, 24 if low else 23] = price
            elif not load[i]:
                g[i, 9 if low else 8] = g[i, 1] + (-off if low else off)
                g[i, 22 if low else 21] = price
            elif low:
                g[i, 9] = g[i, 1] - off
                g[i, 22] = price
            else:
                g[i, 1] = -off
                g[i, 21] = price
    r['bus'], r['gen'], r['branch'] = bus, g, br


# ----------------------------------------------------------------- reading reports
BAR = '=' * 80


def sections(txt):
    """{title: [lines]} with the text before the first title under ''."""
    out, cur = {'': []}, ''
    ls = txt.split('\n')
    i = 0
    while i < len(ls):
        if ls[i] == BAR and i + 2 < len(ls) and ls[i + 2] == BAR and ls[i + 1].startswith('|'):
            cur = ls[i + 1].strip('| ').strip()
            expect(cur not in out, 'section-twice', cur)
            out[cur] = []
            i += 3
            continue
        out[cur].append(ls[i])
        i += 1
    return out


def agrees(tok, v, scale=0.0):
    """A printed number is the value, to the digits printed."""
    t = tok.rstrip('*')
    try:
        p = float(t)
    except ValueError:
        return False
    if not math.isfinite(v):
        return (math.isnan(p) and math.isnan(v)) or p == v
    nd = len(t.split('.')[1]) if '.' in t else 0
    return abs(p - v) <= .5000001 * 10.0 ** -nd + 1e-8 * (abs(v) + scale)


BIG = 1e4


def split(tok):
    """All ways to read a token as numbers that run into each other ('1.029186742.675')."""
    if not re.fullmatch(r'[-\d.]+', tok) or tok == '-':
        return [[tok]]
    out = []
    for m in range(1, len(tok)):
        a, b = tok[:m], tok[m:]
        if re.fullmatch(r'-?\d+(\.\d{1,3})?', a) and re.match(r'-?\d', b):
            out += [[a] + x for x in split(b) if all(re.fullmatch(r'-?\d+(\.\d+)?', y) for y in x)]
    return out + ([[tok]] if re.fullmatch(r'-?\d+(\.\d+)?', tok) else [])


def readings(tokens, n):
    out = [[]]
    for t in tokens:
        out = [a + b for a in out for b in split(t) if len(a) + len(b) <= n]
    return [a for a in out if len(a) == n]


def row(tokens, want, where, scale=0.0):
    """Compare tokens with expected values; None accepts '-'-placeholders or anything, a tuple lists alternatives."""
    if 0 < len(tokens) < len(want):
        for x in readings(tokens, len(want))[:200]:
            tokens = x
            try:
                return row(x, want, where, scale)
            except Violation:
                pass
    expect(len(tokens) == len(want), 'layout', lambda: '%s: %s has %d columns, expected %d' % (where, tokens, len(tokens), len(want)))
    for j, (t, v) in enumerate(zip(tokens, want)):
        if v is None:
            continue
        if isinstance(v, tuple):
            ok = any((a == '-' and t == '-') or (a != '-' and t != '-' and agrees(t, a, scale)) for a in v)
        else:
            ok = agrees(t, v, scale)
        expect(ok, where.split(':')[0].replace(' ', '-').lower(), lambda: '%s: column %d says %s, results %s (line %s)' % (where, j + 1, t, v, tokens))


def body(lines, head):
    """Table rows after the rule that follows the header line starting with `head`."""
    k = [i for i, l in enumerate(lines) if l.startswith(head)]
    expect(k, 'layout', 'no line %r' % head)
    i = k[0]
    while not re.match(r'^ *-{2,}[ -]*$', lines[i]):
        i += 1
    out = []
    for l in lines[i + 1:]:
        if not l.strip():
            break
        out.append(l)
    return out


# ------------------------------------------------------------------------- checks
def facts(s, r, o):
    """Everything the report states, from the tables."""
    dc = s['kind'] in ('dcpf', 'dcopf')
    F = type('F', (), {})()
    bus, g, br = [np.array(r[k], float) for k in ('bus', 'gen', 'branch')]
    base = float(r['baseMVA'])
    if dc:
        bus[:, [3, 5]] = 0
        g[:, [2, 3, 4]] = 0
    F.bus, F.gen, F.br, F.base, F.dc = bus, g, br, base, dc
    pos = {int(b[0]): i for i, b in enumerate(bus)}
    F.pos = pos
    dead = bus[:, 1] == 4
    F.f, F.t = [np.array([pos[int(x)] for x in br[:, c]], int) for c in (0, 1)]
    live = (br[:, 10] != 0) & ~dead[F.f] & ~dead[F.t]
    tap = np.where(br[:, 8] == 0, 1.0, br[:, 8])
    vm = bus[:, 7]
    b = np.zeros(len(br)) if dc else br[:, 4]
    F.fchg = np.where(live, (vm[F.f] / tap) ** 2 * b * base / 2, 0)
    F.tchg = np.where(live, vm[F.t] ** 2 * b * base / 2, 0)
    F.lossp = np.where(live, br[:, 13] + br[:, 15], 0) if not dc else np.zeros(len(br))
    F.lossq = np.where(live, br[:, 14] + br[:, 16] + F.fchg + F.tchg, 0) if not dc else np.zeros(len(br))
    F.live = live
    load = (g[:, 9] < 0) & (g[:, 8] == 0)
    on = g[:, 7] > 0
    F.load, F.on, F.ong, F.onld = load, on, on & ~load, on & load
    F.stranded = bool(np.any(on & dead[[pos[int(x)] for x in g[:, 0]]]))
    F.gb = np.array([pos[int(x)] for x in g[:, 0]], int)
    F.ld = (bus[:, 2] != 0) | (bus[:, 3] != 0)
    F.sh = (bus[:, 4] != 0) | (bus[:, 5] != 0)
    F.tie = bus[F.f, 6] != bus[F.t, 6]
    F.opf = 'opf' in s['kind']
    F.scale = base * (1 + np.abs(np.nan_to_num(br[:, 13:17])).max(initial=0) / base)
    return F


def summary(F, lines):
    txt = '\n'.join(lines)
    bus, g, br = F.bus, F.gen, F.br
    N = r'(-?(?:[\d.]+|inf|nan))'

    def get(pat, *want):
        m = re.search(pat.replace('#', N), txt)
        expect(m, 'layout', 'summary: no match for %r' % pat)
        row(list(m.groups()), want, 'system summary: ' + pat.split(' ')[0], F.scale)
    allg = ~F.load
    S = lambda v: float(np.sum(v))
    with np.errstate(invalid='ignore'):
        caps = [S(g[allg, 8]), S(g[allg, 4]), S(g[allg, 3])]
        con = [S(g[F.ong, 8]), S(g[F.ong, 4]), S(g[F.ong, 3])]
    if F.stranded:
        con = [None] * 3
    get(r'Buses +# +Total Gen Capacity +# +# to #', len(bus), *caps)
    get(r'Generators +# +On-line Capacity +# +# to #', int(allg.sum()), *con)
    get(r'Committed Gens +# +Generation \(actual\) +# +#', None if F.stranded else int(F.ong.sum()), S(g[F.ong, 1]), S(g[F.ong, 2]))
    nl_, nd = int(F.ld.sum()), int(F.onld.sum())
    fp, fq = S(bus[:, 2]), S(bus[:, 3])
    dp, dq = -S(g[F.onld, 1]), -S(g[F.onld, 2])
    get(r'\nLoads +# +Load +# +#', None if F.stranded else nl_ + nd, fp + dp, fq + dq)
    get(r'Fixed +# +Fixed +# +#', nl_, fp, fq)
    get(r'Dispatchable +# +Dispatchable +# of # *#', None if F.stranded else nd, dp, None if F.stranded else -S(g[F.onld, 9]), dq)
    v2 = bus[:, 7] ** 2
    get(r'Shunts +# +Shunt \(inj\) +# +#', int(F.sh.sum()), -S(v2 * bus[:, 4]), S(v2 * bus[:, 5]))
    get(r'Branches +# +Losses \(I\^2 \* Z\) +# +#', len(br), S(F.lossp), S(F.lossq))
    get(r'Transformers +# +Branch Charging \(inj\) +- +#', int((br[:, 8] != 0).sum()), S(F.fchg + F.tchg))
    t = F.tie
    get(r'Inter-ties +# +Total Inter-tie Flow +# +#', int(t.sum()), S(np.abs(br[t, 13] - br[t, 15])) / 2, S(np.abs(br[t, 14] - br[t, 16])) / 2)
    get(r'Areas +#', len(set(bus[:, 6])))

    def extreme(pat, v, names, both=True):
        m = re.search(pat.replace('#', N), txt)
        expect(m, 'layout', 'summary: no match for %r' % pat)
        q = list(m.groups())
        if both:
            row(q[:1], [v.min()], 'system summary: least ' + pat.split(' ')[0], 1)
            k = [i for i in range(len(v)) if names[i] == q[1]]
            expect(any(v[i] <= v.min() + 1e-9 for i in k), 'extreme-place', 'least %s is not at %s' % (pat, q[1]))
            q = q[2:]
        row(q[:1], [v.max()], 'system summary: largest ' + pat.split(' ')[0], F.scale)
        k = [i for i in range(len(v)) if names[i] == q[1]]
        tol = 1e-9 if both else 1e-7 * F.scale
        expect(any(v[i] >= v.max() - tol for i in k), 'extreme-place', lambda: 'largest %s (%r) is not at %s' % (pat, v.max(), q[1]))
    bn = ['%d' % b[0] for b in bus]
    if np.isfinite(bus[:, 7:9]).all():
        extreme(r'Voltage Magnitude +# p.u. @ bus # +# p.u. @ bus #', bus[:, 7], bn)
        extreme(r'Voltage Angle +# deg +@ bus # +# deg +@ bus #', bus[:, 8], bn)
        bl = ['%d-%d' % (r[0], r[1]) for r in br]
        if not F.dc and len(br):
            extreme(r'P Losses \(I\^2\*R\) +- +# MW +@ line (\d+-\d+)', F.lossp, bl, False)
            extreme(r'Q Losses \(I\^2\*X\) +- +# MVAr +@ line (\d+-\d+)', F.lossq, bl, False)
        if F.opf:
            extreme(r'Lambda P +# \$/MWh @ bus # +# \$/MWh @ bus #', bus[:, 13], bn)
            extreme(r'Lambda Q +# \$/MWh @ bus # +# \$/MWh @ bus #', bus[:, 14], bn)


def areas(F, lines):
    bus, g, br = F.bus, F.gen, F.br
    A = sorted(set(bus[:, 6]))
    S = lambda v: float(np.sum(v))
    T = [body(lines, h) for h in ('Area  # of', 'Area      Total Gen Capacity', 'Area    Disp Load Cap', 'Area      Shunt Inj')]
    for t in T:
        expect(len(t) == len(A) + 2, 'area-rows', '%d lines for %d areas' % (len(t), len(A)))
    aB, aG = bus[:, 6], bus[F.gb, 6]
    af, at = bus[F.f, 6], bus[F.t, 6]
    v2 = bus[:, 7] ** 2
    tok = lambda l: [x for x in re.sub(r'^Tot:', 'Tot ', l).replace(' to ', ' ').split()]
    inf = ~np.isfinite(g[:, [3, 4]]).all()
    for i in range(len(A) + 1):
        a = A[i] if i < len(A) else None
        k = i if i < len(A) else i + 1
        inB = np.ones(len(bus), bool) if a is None else aB == a
        inG = np.ones(len(g), bool) if a is None else aG == a
        name = [a] if a is not None else [None]
        gg, go, lo = inG & ~F.load, inG & F.ong, inG & F.onld
        inner = (af == at) & (True if a is None else af == a)
        tie = F.tie if a is None else (af != at) & ((af == a) | (at == a))
        w = 'areas: %s, ' % ('total' if a is None else 'area %d' % a)
        st = F.stranded
        row(tok(T[0][k]), name + [int(inB.sum()), int(gg.sum()), None if st else int(go.sum()), None if st else int((inB & F.ld).sum() + lo.sum()), int((inB & F.ld).sum()),
                                  None if st else int(lo.sum()), int((inB & F.sh).sum()), int(inner.sum()) if a is not None else len(br),
                                  int((inner & (br[:, 8] != 0)).sum()) if a is not None else int((br[:, 8] != 0).sum()), int(tie.sum())], w + 'counts')
        with np.errstate(invalid='ignore'):
            row(tok(T[1][k]), name + [S(g[gg, 8]), S(g[gg, 4]), S(g[gg, 3])] + ([None] * 3 if st else [S(g[go, 8]), S(g[go, 4]), S(g[go, 3])]) + [S(g[go, 1]), S(g[go, 2])],
                w + 'generation', F.scale)
        ql = np.where(g[:, 4] == 0, g[:, 3], 0) + np.where(g[:, 3] == 0, g[:, 4], 0)
        dp, dq, fp, fq = -S(g[lo, 1]), -S(g[lo, 2]), S(bus[inB, 2]), S(bus[inB, 3])
        row(tok(T[2][k]), name + ([None] * 2 if st else [-S(g[lo, 9]), -S(ql[lo])]) + [dp, dq, fp, fq, dp + fp, dq + fq], w + 'loads', F.scale)
        want = [-S((v2 * bus[:, 4])[inB]), S((v2 * bus[:, 5])[inB])]
        if a is None:
            row(tok(T[3][k]), name + want + [S(F.fchg + F.tchg), S(F.lossp), S(F.lossq), None, None], w + 'losses', F.scale)
        else:
            # each end of a tie belongs to its own area, its series loss half to each
            inn, fo, ti = inner & F.live, F.live & (af == a) & (at != a), F.live & (at == a) & (af != a)
            half = fo | ti
            lp, lq = S(F.lossp[inn]) + S(F.lossp[half]) / 2, S(F.lossq[inn]) + S(F.lossq[half]) / 2
            row(tok(T[3][k]), name + want + [S(F.fchg[inn] + F.tchg[inn]) + S(F.fchg[fo]) + S(F.tchg[ti]), lp, lq,
                                             S(br[fo, 13]) + S(br[ti, 15]) - S(F.lossp[half]) / 2, S(br[fo, 14]) + S(br[ti, 16]) - S(F.lossq[half]) / 2], w + 'losses', F.scale)


def units(F, lines, which, sign, title):
    R = body(lines, ' Gen   Bus')
    ids = np.flatnonzero(which)
    expect(any('Lambda' in l for l in lines) == F.opf, title, 'heading of the table')
    expect(len(R) == len(ids) + 2 or F.stranded, title, '%d lines for %d units' % (len(R), len(ids)))
    seen = []
    for l in R[:-2]:
        t = l.split()
        i = int(t[0])
        expect(0 <= i < len(F.gen) and which[i], title, 'row %d: %s' % (i, l))
        seen.append(i)
        p, q = sign * F.gen[i, 1], sign * F.gen[i, 2]
        z = p == 0 and q == 0
        row(t, [i, F.gen[i, 0], F.gen[i, 7], (p, '-') if z else p, (q, '-') if z else q] + ([F.bus[F.gb[i], 13], F.bus[F.gb[i], 14]] if F.opf else []),
            title + ': unit %d' % i, F.scale)
    expect(seen == list(ids) or F.stranded, title, 'units %s listed, in service %s' % (seen, list(ids)))
    row(R[-1].replace('Total:', ' ').split(), [sign * float(np.sum(F.gen[which, 1])), sign * float(np.sum(F.gen[which, 2]))], title + ': total', F.scale)


def buses(F, lines):
    expect(any('Lambda' in l for l in lines) == F.opf, 'bus-data', 'heading of the table')
    R = body(lines, ' Bus ')
    expect(len(R) == len(F.bus) + 2, 'bus-data', '%d lines for %d buses' % (len(R), len(F.bus)))
    for i, l in enumerate(R[:-2]):
        b = F.bus[i]
        t = l.replace('*', '* ').split()
        gs, ls = F.ong & (F.gb == i), F.onld & (F.gb == i)
        pg, qg = float(np.sum(F.gen[gs, 1])), float(np.sum(F.gen[gs, 2]))
        pd, qd = b[2] - float(np.sum(F.gen[ls, 1])), b[3] - float(np.sum(F.gen[ls, 2]))
        gw = [pg, qg] if gs.any() else ['-', '-']
        lw = [pd, qd] if ls.any() or b[2] or b[3] else ['-', '-']
        want = [b[0], b[7], b[8]] + [(x,) if x == '-' else (x, '-') if abs(x) == 0 and F.stranded else x for x in gw + lw]
        if F.opf:
            want += [b[13], (b[14],) if abs(b[14]) > 1.01 * PTOL else (b[14], '-')]
        row(t, want, 'bus data: bus %d' % b[0], F.scale)
        ref_ = l[21:22] == '*'
        expect(ref_ == (b[1] == 3), 'bus-data', 'bus %d of type %d: %r' % (b[0], b[1], l))
        if ls.any():
            expect(t[5].endswith('*') and t[6].endswith('*'), 'bus-data', 'dispatchable load not marked: %r' % l)
    S = lambda v: float(np.sum(v))
    row(R[-1].replace('Total:', ' ').split(), [S(F.gen[F.ong, 1]), S(F.gen[F.ong, 2]), S(F.bus[:, 2]) - S(F.gen[F.onld, 1]), S(F.bus[:, 3]) - S(F.gen[F.onld, 2])],
        'bus data: total', F.scale)


def branches(F, lines):
    R = body(lines, 'Brnch ')
    expect(len(R) == len(F.br) + 2, 'branch-data', '%d lines for %d branches' % (len(R), len(F.br)))
    for i, l in enumerate(R[:-2]):
        b = F.br[i]
        row(l.split(), [i, b[0], b[1], b[13], b[14], b[15], b[16], F.lossp[i], F.lossq[i]], 'branch data: branch %d' % i, F.scale)
    row(R[-1].replace('Total:', ' ').split(), [float(np.sum(F.lossp)), float(np.sum(F.lossq))], 'branch data: total', F.scale)


def mu(v, slack):
    """Printed multiplier: a number where the limit is reached or priced, else a dash."""
    must, may = binding([(slack, v)])
    return (v,) if must else (v, '-') if may else ('-',)


def priced(v):
    return (v,) if v > 1.01 * PTOL else (v, '-')


def binding(tests):
    """(must be listed, may be listed) from [(slack, mu)]"""
    must = any(sl < .99 * CT[0] or m > 1.01 * PTOL for sl, m in tests)
    may = any(sl < 1.01 * CT[0] or m > .99 * PTOL for sl, m in tests)
    return must, may


CT = [CTOL]


def limits(F, sec, lim, s, r):
    bus, g, br = F.bus, F.gen, F.br

    def table(title, head, level, rows):
        """rows: [(key, must, may, expected tokens)]"""
        lines = sec.get(title)
        want = [x for x in rows if level == 2 or (level == 1 and x[1])]
        if lines is None or not any(l.startswith(head[0]) and any(head[1] in m for m in lines[i:i + 2]) for i, l in enumerate(lines)):
            expect(not want, 'limit-missing', lambda: '%s %s: nothing printed (level %d), binding: %s' % (title, head[1], level, [x[0] for x in want]))
            return
        i = [i for i, l in enumerate(lines) if l.startswith(head[0]) and any(head[1] in m for m in lines[i:i + 2])][0]
        got = {}
        for l in body(lines[i:], head[0]):
            m = 5 if 'V' in head[1] and title[0] == 'V' else 4 if title[0] == 'B' or title[0] == 'G' and head[1][0] == 'A' else 3
            t = (l[:m] + ' ' + l[m:]).split()
            got.setdefault(int(t[0]), []).append(t)
        expect(level > 0, 'limit-extra', '%s printed with level 0' % title)
        for k, must, may, tk in rows:
            n = len(got.get(k, []))
            expect(n <= 1, 'limit-rows', '%s: %s twice' % (title, k))
            expect(n == 1 or not (must or level == 2), 'limit-missing', lambda: '%s %s: %s is not listed' % (title, head[1], k))
            expect(n == 0 or may or level == 2, 'limit-extra', lambda: '%s %s: %s is listed, not binding' % (title, head[1], k))
            if n:
                row(got[k][0], tk, 'limits: %s %s' % (title, k), F.scale)
        expect(set(got) <= {x[0] for x in rows}, 'limit-extra', lambda: '%s: %s' % (title, set(got) - {x[0] for x in rows}))
    if F.dc:
        expect('Voltage Constraints' not in sec and not any('Reactive Power Limits' in l for ls in sec.values() for l in ls), 'limit-extra', 'limits of a DC case on voltages or reactive power')
    for nm in ('Generation Constraints', 'Dispatchable Load Constraints'):
        if nm in sec and not (F.dc and nm[0] == 'D'):
            expect(any('Power Limits' in l for l in sec[nm]), 'section', 'nothing under %r' % nm)
    if not F.dc:
        table('Voltage Constraints', ('Bus #', '|V|'), lim['V'],
              [(int(b[0]), *binding([(b[7] - b[12], b[16]), (b[11] - b[7], b[15])]), [b[0], mu(b[16], b[7] - b[12]), b[12], b[7], b[11], mu(b[15], b[11] - b[7])]) for b in bus])
    for nm, sel, head in (('Generation Constraints', F.ong, ' Gen'), ('Dispatchable Load Constraints', F.onld, 'Gen')):
        for q, c, lo, hi, mlo, mhi, lv in ((0, 1, 9, 8, 22, 21, 'P'), (1, 2, 4, 3, 24, 23, 'Q')):
            if q and F.dc:
                continue
            h = ('Gen' if q else head, 'Active Power' if not q else 'Reactive Power')
            R = []
            for i in np.flatnonzero(sel):
                u = g[i]
                must, may = binding([(u[c] - u[lo], u[mlo]), (u[hi] - u[c], u[mhi])])
                if F.stranded:
                    must = False
                R.append((int(i), must, may, [i, u[0], mu(u[mlo], u[c] - u[lo]), u[lo], u[c] if u[c] else (0.0, '-'), u[hi], mu(u[mhi], u[hi] - u[c])]))
            table(nm, h, lim[lv], R)
    if s['flow'] == 1 or F.dc:
        Ff, Ft = br[:, 13], br[:, 15]
    else:
        Ff, Ft = np.hypot(br[:, 13], br[:, 14]), np.hypot(br[:, 15], br[:, 16])
        if s['flow'] == 2:
            Ff, Ft = Ff / bus[F.f, 7], Ft / bus[F.t, 7]
    R = []
    for i, b in enumerate(br):
        inf = np.inf
        must, may = binding([(b[5] - abs(Ff[i]) if b[5] else inf, b[17]), (b[5] - abs(Ft[i]) if b[5] else inf, b[18])])
        # (an unlimited branch, or a limit reached backwards, may show its multiplier or not)
        side = lambda m, f: mu(m, b[5] - f) if b[5] and (f >= 0 or b[5] - abs(f) > 1.01 * CT[0]) else priced(m)
        R.append((i, must, may, [i, b[0], side(b[17], Ff[i]), Ff[i], b[5], Ft[i], side(b[18], Ft[i]), b[1]]))
    table('Branch Flow Constraints', ('Brnch', 'From'), lim['L'], R)


def check(s):
    from pypower.api import runpf, rundcpf, runopf, rundcopf, printpf, ppoption
    case = gen.arr(s['net']['ppc'])
    k = s['kind']
    CT[0] = s['tol']
    solve = dict(VERBOSE=0, OUT_ALL=0, OPF_FLOW_LIM=s['flow'])
    if k == 'acpf':
        solve['PF_ALG'] = s['alg']
        if s['alg'] == 4:
            solve['PF_MAX_IT_GS'] = 200
    if s['fail']:
        solve.update(PF_MAX_IT=1, PF_MAX_IT_FD=1, PF_MAX_IT_GS=2, PDIPM_MAX_IT=3)
    solve['OPF_VIOLATION'] = s['tol']
    solve['PDIPM_FEASTOL'] = 5e-6
    try:
        if k == 'acpf':
            r, ok = runpf(case, ppoption(**solve))
        elif k == 'dcpf':
            r, ok = rundcpf(case, ppoption(**solve))
        else:
            r = (runopf if k == 'acopf' else rundcopf)(case, ppoption(**solve))
            ok = r['success']
    except np.linalg.LinAlgError:
        return ['singular']
    except ValueError as e:
        if 'cubic' in str(e) or 'polynomial' in str(e):
            return ['refused']
        raise
    if s.get('spin'):       # a stored output of a unit which is off means nothing
        r['gen'] = np.array(r['gen'], float)
        r['gen'][r['gen'][:, 7] <= 0, 1:3] = [7.0, -3.0]
    if s.get('edit') and 'opf' in k and ok:
        retouch(s, r, s['tol'])
    o = ppoption(**dict(solve, PF_DC=k in ('dcpf', 'dcopf'), **s['o']) if False else dict(dict(solve, PF_DC=k in ('dcpf', 'dcopf')), **s['o']))
    before = snapshot({x: r[x] for x in ('bus', 'gen', 'branch')})
    keep = copy.deepcopy(o)
    fd = io.StringIO()
    printpf(r, fd, o)
    txt = fd.getvalue()
    expect(same(before, {x: r[x] for x in before}), 'results-modified', '')
    expect(o == keep, 'options-modified', '')
    fd = io.StringIO()
    printpf(r['baseMVA'], r['bus'], r['gen'], r['branch'], r.get('f'), r['success'], r['et'], fd, o)
    expect(fd.getvalue() == txt, 'array-form', 'the report of the arrays differs from the report of the results')
    if s['again']:
        fd = io.StringIO()
        printpf(r, fd, o)
        expect(fd.getvalue() == txt, 'again', 'a second report differs')
    # which sections
    A = o['OUT_ALL']
    on = lambda n: A == 1 or (A == -1 and bool(o[n]))
    L_ = 2 if A == 1 else 0 if A == 0 else o['OUT_ALL_LIM']
    lim = {x: (o[n] if L_ == -1 else L_) for x, n in (('V', 'OUT_V_LIM'), ('L', 'OUT_LINE_LIM'), ('P', 'OUT_PG_LIM'), ('Q', 'OUT_QG_LIM'))}
    sec = sections(txt)
    F = facts(s, r, o)
    if not np.isfinite(F.bus[:, 7:9]).all() or not np.isfinite(F.br[:, 13:17]).all():
        return ['not-finite']
    if not ok and max(np.abs(np.nan_to_num(F.br[:, 13:])).max(initial=0), np.abs(F.bus[:, 7:]).max(), np.abs(np.delete(F.gen, [3, 4, 8, 9], 1)).max()) > BIG:
        return ['diverged']         # the columns run into each other
    labels = [k, 'ok' if ok else 'failed']
    main = [n for n in ('OUT_SYS_SUM', 'OUT_AREA_SUM', 'OUT_BUS', 'OUT_BRANCH', 'OUT_GEN') if on(n)]
    head = '\n'.join(sec[''])
    if main:
        m = re.search(r'Converged in ([\d.]+) seconds' if ok else r'Did not converge \(([\d.]+) seconds\)', head)
        expect(m, 'verdict', 'success=%s, report: %r' % (ok, head))
        row([m.group(1)], [float(r['et'])], 'verdict: seconds')
        if F.opf:
            m = re.search(r'Objective Function Value = (-?[\d.]+|nan|inf|-inf) \$/hr', head)
            expect(m, 'objective', head)
            row([m.group(1)], [float(np.ravel(r['f'])[0])], 'objective: value', 1)
        else:
            expect('Objective' not in head, 'objective', 'an objective is reported for a power flow')
    elif not any(lim.values()):
        expect(not txt.strip(), 'not-silent', repr(txt[:200]))
    for n, t in (('OUT_SYS_SUM', 'System Summary'), ('OUT_AREA_SUM', 'Area Summary'), ('OUT_BUS', 'Bus Data'), ('OUT_BRANCH', 'Branch Data'), ('OUT_GEN', 'Generator Data')):
        expect((t in sec) == on(n), 'section', '%s printed: %s, asked for: %s' % (t, t in sec, on(n)))
    if 'System Summary' in sec:
        summary(F, sec['System Summary'])
    if 'Area Summary' in sec:
        areas(F, sec['Area Summary'])
    if 'Generator Data' in sec:
        units(F, sec['Generator Data'], F.ong, 1, 'Generator Data')
        expect(('Dispatchable Load Data' in sec) == bool(F.onld.any()) or F.stranded, 'section', 'Dispatchable Load Data')
    if 'Dispatchable Load Data' in sec:
        expect(on('OUT_GEN'), 'section', 'Dispatchable Load Data')
        units(F, sec['Dispatchable Load Data'], F.onld, -1, 'Dispatchable Load Data')
        labels.append('loads')
    if 'Bus Data' in sec:
        buses(F, sec['Bus Data'])
    if 'Branch Data' in sec:
        branches(F, sec['Branch Data'])
    if F.opf:
        limits(F, sec, lim, s, r)
    else:
        expect(not any('Constraints' in t for t in sec), 'section', 'limits are printed after a power flow')
    labels += ['sec-' + t.split(' ')[0] for t in sec if t]
    if len(sec) > 2:
        labels.append('nontrivial')
    return labels


def make_made(d):
    """Tables that look like OPF results (no solution is needed to print them)."""
    net = gen.draw_net(d, nb_max=5, stress=.9)
    acopf.add_opf(d, net, tight=.5, pqcap=.1, disp=.6, qcost=.2)
    e = d.cells(60)
    ppc = net['ppc']
    pick = lambda n: [[e.pick([0, 0, 0, .003, .02, 1.5, 20]) for _ in range(2)] for _ in range(n)]
    o = {'OUT_ALL': -1, 'OUT_ALL_LIM': -1, 'OUT_SYS_SUM': False, 'OUT_AREA_SUM': False, 'OUT_BRANCH': False, 'OUT_BUS': e.chance(.3), 'OUT_GEN': e.chance(.3)}
    for n in ('OUT_V_LIM', 'OUT_LINE_LIM', 'OUT_PG_LIM', 'OUT_QG_LIM'):
        o[n] = e.pick([0, 1, 1, 1, 2])
    return {'net': net, 'kind': e.pick(['acopf', 'acopf', 'dcopf']), 'o': o, 'flow': e.pick([0, 1, 2]), 'tol': e.pick([5e-6, 1e-4]),
            'lam': pick(len(ppc['bus'])), 'zero': [e.chance(.2) for _ in ppc['gen']], 'spin': e.chance(.3),
            'fl': [[e.i_(-3000, 3000) / 16.0 for _ in range(4)] for _ in ppc['branch']],
            'edit': [e.pick('VPQPQLL'), e.i_(0, 30), e.chance(.5), e.pick([0, .5, .5, 2, 4]), e.pick([0, 0, .5, 3])],
            'more': [[e.pick('VPQPQL'), e.i_(0, 30), e.chance(.5), e.pick([0, .5, 2]), e.pick([0, .5, 3])] for _ in range(e.pick([0, 0, 0, 1, 3]))]}


def check_made(s):
    from pypower.api import printpf, ppoption
    case = gen.arr(s['net']['ppc'])
    CT[0] = s['tol']
    pad = lambda a, n: np.c_[np.array(a, float), np.zeros((len(a), max(0, n - np.shape(a)[1])))]
    r = {'baseMVA': case['baseMVA'], 'bus': pad(case['bus'], 17), 'gen': pad(case['gen'], 25), 'branch': pad(case['branch'], 21), 'success': True, 'et': .25, 'f': 12.5}
    r['bus'][:, 13:15] = s['lam']
    r['bus'][:, 15:17] = 0
    r['gen'][:, 21:25] = 0
    r['branch'][:, 13:17] = s['fl']
    z = np.array(s['zero'], bool)
    r['gen'][z, 1:3] = 0
    dead = r['bus'][:, 1] == 4
    pos = {int(b[0]): i for i, b in enumerate(r['bus'])}
    r['gen'][dead[[pos[int(x)] for x in r['gen'][:, 0]]], 7] = 0
    r['gen'][:, [3, 4, 8, 9]] = np.clip(r['gen'][:, [3, 4, 8, 9]], -9000, 9000)
    dc = s['kind'] == 'dcopf'
    if dc:
        r['branch'][:, [14, 16]] = 0
        r['branch'][:, 15] = -r['branch'][:, 13]
        r['gen'][:, 2] = 0
    if s['spin']:
        r['gen'][r['gen'][:, 7] <= 0, 1:3] = [7.0, -3.0]
    retouch(s, r, s['tol'])
    for m in s['more']:
        # one more quantity at a limit
        keep = {k: r[k].copy() for k in ('bus', 'gen', 'branch')}
        retouch(dict(s, edit=m), r, s['tol'])
        for k, cols in (('bus', [11, 12, 15, 16]), ('branch', [5, 17, 18])):
            was = {'bus': m[0] == 'V', 'branch': m[0] == 'L'}[k]
            if not was:
                r[k] = keep[k]
        if m[0] in 'VL':
            r['gen'] = keep['gen']
    o = ppoption(VERBOSE=0, PF_DC=dc, OPF_FLOW_LIM=s['flow'], OPF_VIOLATION=s['tol'], **s['o'])
    fd = io.StringIO()
    printpf(r, fd, o)
    txt = fd.getvalue()
    lim = {x: o[n] for x, n in (('V', 'OUT_V_LIM'), ('L', 'OUT_LINE_LIM'), ('P', 'OUT_PG_LIM'), ('Q', 'OUT_QG_LIM'))}
    sec = sections(txt)
    F = facts(s, r, o)
    for n, t in (('OUT_BUS', 'Bus Data'), ('OUT_GEN', 'Generator Data')):
        expect((t in sec) == o[n], 'section', '%s printed: %s, asked for: %s' % (t, t in sec, o[n]))
    if 'Bus Data' in sec:
        buses(F, sec['Bus Data'])
    if 'Generator Data' in sec:
        units(F, sec['Generator Data'], F.ong, 1, 'Generator Data')
        expect(('Dispatchable Load Data' in sec) == bool(F.onld.any()), 'section', 'Dispatchable Load Data')
    if 'Dispatchable Load Data' in sec:
        units(F, sec['Dispatchable Load Data'], F.onld, -1, 'Dispatchable Load Data')
    limits(F, sec, lim, s, r)
    return (['nontrivial'] if any('Constraints' in t for t in sec) else []) + ['sec-' + t.split(' ')[0] for t in sec if t]


SUBS = [
    Sub('acpf', gen.spec_strategy(make, 'acpf'), check, 300, 12000),
    Sub('dcpf', gen.spec_strategy(make, 'dcpf'), check, 200, 8000),
    Sub('acopf', gen.spec_strategy(make, 'acopf'), check, 160, 5000),
    Sub('dcopf', gen.spec_strategy(make, 'dcopf'), check, 240, 8000),
    Sub('made', gen.spec_strategy(make_made), check_made, 1500, 40000),
]
