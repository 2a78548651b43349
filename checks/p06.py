"""P06  External <-> internal conversion is lossless and consistent."""
import numpy as np
import scipy.sparse as sp
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import close, same, snapshot, dense, base_labels

ID = 'P06'
RULE = ('random cases with arbitrary bus numbers, row orders, out-of-service and isolated elements, optional areas, '
        'P and Q costs, user matrices A/N (dense or sparse, AC or DC width, extra columns), nested user fields; '
        'oracle: a dictionary-based model of the mapping and exact round trips; non-trivial = at least one element was '
        'removed or re-ordered')


def matrix(d, nr, nc):
    c = d.cells(4 + 2 * 12)
    M = np.zeros((nr, nc))
    for i in range(nr):
        for j in range(nc):
            v = (i * 31 + j * 17 + c.data[(i * nc + j) % len(c.data)]) % 97
            M[i, j] = round(v / 7.0 - 3, 3) if v % 3 else 0.0
    return M.tolist()


def make(d):
    net = gen.draw_net(d, nb_max=8)
    ppc = net['ppc']
    nb, ng, nl = len(ppc['bus']), len(ppc['gen']), len(ppc['branch'])
    spec = {'net': net, 'qcost': d.chance(.5), 'gencost': d.chance(.7)}
    if spec['gencost']:
        m = 2 * ng if spec['qcost'] else ng
        ppc['gencost'] = [[2, 10.0 * i, 1.0 * i, 3, round(.01 * (i + 1), 3), 20.0 + i, 0.0] for i in range(m)]
    if d.chance(.4):
        ar = []
        for k in range(d.i(1, 3)):
            ar.append([k + 1, ppc['bus'][d.i(0, nb - 1)][0]])
        ppc['areas'] = ar
    spec['dc'] = d.chance(.4)
    base_cols = nb + ng if spec['dc'] else 2 * nb + 2 * ng
    spec['A'] = spec['N'] = None
    if d.chance(.6):
        ex = d.i(0, 2) if not (spec['dc'] and nb + ng <= 2) else 0
        spec['A'] = matrix(d, d.i(1, 3), base_cols + ex)
        if d.chance(.5):
            spec['N'] = matrix(d, d.i(1, 2), base_cols + ex)
    elif d.chance(.3):
        spec['N'] = matrix(d, d.i(1, 2), base_cols)
    spec['sparse'] = d.pick(['', 'csr', 'csc'])
    spec['xcols'] = d.i(0, 2)
    spec['touch'] = d.f(1, 9, 2)
    spec['cycles'] = d.pick([1, 1, 2])
    o = d.pick(['bus', 'gen', 'branch', 'bb', 'gg', 'bbgg', 'gb', 'brg'])
    spec['ordering'] = {'bb': ['bus', 'bus'], 'gg': ['gen', 'gen'], 'bbgg': ['bus', 'bus', 'gen', 'gen'],
                        'gb': ['gen', 'bus'], 'brg': ['branch', 'gen']}.get(o, o)
    spec['dim'] = d.pick([0, 1])
    spec['vecdim'] = d.pick([1, 2])
    spec['extra'] = d.i(0, 2)
    spec['depth'] = d.i(1, 3)
    return spec


def model(L, ppc):
    """Internal order as the documentation states it: rows in service, gens by bus."""
    order = sorted(range(len(L.g)), key=lambda k: L.gb[k])
    return order


def build(spec):
    net = spec['net']
    case = gen.arr(net['ppc'])
    for t in ('bus', 'gen', 'branch'):
        n = case[t].shape[0]
        if spec['xcols']:
            case[t] = np.hstack([case[t], np.arange(n * spec['xcols'], dtype=float).reshape(n, -1) + .5])
    for k in ('A', 'N'):
        if spec[k] is not None:
            M = np.array(spec[k], float)
            case[k] = M if not spec['sparse'] else (sp.csr_matrix(M) if spec['sparse'] == 'csr' else sp.csc_matrix(M))
    return case


TABLES = ('bus', 'gen', 'branch', 'gencost', 'areas', 'A', 'N')


def check(spec):
    from pypower.ext2int import ext2int
    from pypower.int2ext import int2ext
    net = spec['net']
    case = build(spec)
    orig = snapshot(case)
    L = ref.Live(case)
    labels = base_labels(net, L) + ['A=%s' % (spec['A'] is not None and (spec['sparse'] or 'dense'))]
    cur = case
    for cyc in range(spec['cycles']):
        i = ext2int(cur)
        if cyc == 0:
            expect(same(case, orig), 'mutated', 'ext2int changed its argument')
        o = i['order']
        expect(o['state'] == 'i', 'state')
        on = {'bus': L.rows, 'branch': L.br, 'gen': L.g}
        for t in on:
            expect(list(o[t]['status']['on']) == on[t], 'status', '%s in service: %s, expected %s' % (t, list(o[t]['status']['on']), on[t]))
            off = [k for k in range(len(orig[t])) if k not in on[t]]
            expect(list(o[t]['status']['off']) == off, 'status', '%s out of service' % t)
            expect(i[t].shape == (len(on[t]), orig[t].shape[1]), 'shape', '%s internal shape %s' % (t, i[t].shape))
        # buses: same order, consecutive numbers
        wb = orig['bus'][L.rows].copy()
        wb[:, 0] = range(L.n)
        close(i['bus'], wb, 0, 'bus', 'internal bus table')
        wl = orig['branch'][L.br].copy()
        if len(L.br):
            wl[:, 0], wl[:, 1] = L.F, L.T
            close(i['branch'], wl, 0, 'branch', 'internal branch table')
        # gens: sorted by bus; as a multiset equal to the live rows; gencost rows follow their unit
        wg = orig['gen'][L.g].copy()
        wg[:, 0] = L.gb
        ig = i['gen']
        expect(np.all(np.diff(ig[:, 0]) >= 0), 'gen-order', 'internal generators are not sorted by bus: %s' % ig[:, 0])
        e2i = [int(x) for x in o['gen']['e2i']]
        i2e = [int(x) for x in o['gen']['i2e']]
        expect(sorted(e2i) == list(range(len(L.g))), 'gen-map', 'e2i is not a permutation')
        expect([e2i[k] for k in i2e] == list(range(len(L.g))), 'gen-map', 'i2e is not the inverse of e2i')
        close(ig, wg[e2i], 0, 'gen', 'internal generator table')
        gi = [L.g[k] for k in e2i]
        ng = len(orig['gen'])
        if 'gencost' in orig:
            rows = gi + ([ng + k for k in gi] if len(orig['gencost']) == 2 * ng else [])
            close(i['gencost'], orig['gencost'][rows], 0, 'gencost', 'internal gencost')
        nb = len(orig['bus'])
        wide = [t for t in ('A', 'N') if t in orig]
        if wide:
            ncol = dense(orig[wide[0]]).shape[1]
            if ncol < 2 * nb + 2 * ng:
                cols = L.rows + [nb + k for k in gi]
                used = nb + ng
            else:
                cols = L.rows + [nb + k for k in L.rows] + [2 * nb + k for k in gi] + [2 * nb + ng + k for k in gi]
                used = 2 * nb + 2 * ng
            for t in wide:
                D = dense(orig[t])
                w = D[:, cols + list(range(used, D.shape[1]))]
                close(dense(i[t]), w, 0, 'user-matrix', 'internal %s (%s)' % (t, spec['sparse'] or 'dense'))
        if 'areas' in orig:
            keep = [k for k in range(len(orig['areas'])) if int(orig['areas'][k, 1]) in L.idx]
            wa = orig['areas'][keep].copy()
            wa[:, 1] = [L.idx[int(x)] for x in wa[:, 1]]
            close(i['areas'], wa, 0, 'areas', 'internal areas')
        # idempotent
        again = ext2int(i)
        expect(all(same(again[t], i[t]) for t in TABLES if t in i), 'idempotent', 'converting an internal case again changed it')
        # lossless
        back = int2ext(i)
        for t in TABLES:
            expect((t in back) == (t in orig), 'lost', 'table %s' % t)
            if t in orig:
                expect(same(dense(back[t]), dense(orig[t])), 'round-trip', 'table %s: %s\n vs %s' % (t, dense(back[t]), dense(orig[t])))
        expect(back['order']['state'] == 'e', 'state')
        cur = back
    # writes to internal rows come back at the right external rows, and nowhere else
    i = ext2int(case)
    on = {'bus': L.rows, 'branch': L.br, 'gen': gi}
    mod = snapshot(i)
    exp = snapshot(orig)
    for t, col in (('bus', 7), ('branch', 5), ('gen', 1)):
        vals = spec['touch'] + np.arange(mod[t].shape[0])
        mod[t][:, col] = vals
        exp[t][on[t], col] = vals
    back = int2ext(mod)
    for t in on:
        close(back[t], exp[t], 0, 'write-back', 'table %s after editing the internal case' % t)
    if L.brout or L.gout or len(L.rows) < len(orig['bus']) or 'permute' in net['feats']:
        labels.append('nontrivial')
    return labels


def check_data(spec):
    """e2i_data / i2e_data / e2i_field / i2e_field against the same mapping."""
    from pypower.ext2int import ext2int, ext2int1
    from pypower.int2ext import int2ext, int2ext1
    from pypower.e2i_data import e2i_data
    from pypower.i2e_data import i2e_data
    from pypower.e2i_field import e2i_field
    from pypower.i2e_field import i2e_field
    net = spec['net']
    spec['A'] = spec['N'] = None
    case = build(spec)
    L = ref.Live(case)
    labels = base_labels(net, L) + ['ord=%s' % spec['ordering']]
    i = ext2int(case)
    e2i = [int(x) for x in i['order']['gen']['e2i']]
    live = {'bus': L.rows, 'branch': L.br, 'gen': [L.g[k] for k in e2i]}
    size = {t: len(case[t]) for t in live}
    sets = [spec['ordering']] if isinstance(spec['ordering'], str) else spec['ordering']
    idx, base = [], 0
    for t in sets:
        idx += [base + k for k in live[t]]
        base += size[t]
    extra = spec['extra'] if len(sets) > 1 else 0
    idx += list(range(base, base + extra))
    n = base + extra
    dim = spec['dim'] if spec['vecdim'] == 2 else 0
    x = np.arange(n, dtype=float) * 1.25 + spec['touch']
    if spec['vecdim'] == 2:
        x = np.vstack([x, -x, x * x + 1])
        if dim == 0:
            x = x.T.copy()

    def take(a, ix):
        return a[ix] if a.ndim == 1 or dim == 0 else a[:, ix]

    def put(a, ix, v):
        a = a.copy()
        if a.ndim == 1 or dim == 0:
            a[ix] = v
        else:
            a[:, ix] = v
        return a
    x0 = x.copy()
    y = e2i_data(i, x, spec['ordering'], dim)
    close(y, take(x, idx), 0, 'e2i_data', 'converted data')
    close(x, x0, 0, 'mutated', 'e2i_data changed its argument')
    if spec['sparse'] and x.ndim == 2:
        ys = e2i_data(i, sp.csr_matrix(x), spec['ordering'], dim)
        close(dense(ys), take(x, idx), 0, 'e2i_data-sparse', 'converted sparse data')
        so = sp.csr_matrix(x * 0 - 77.0)
        zs = i2e_data(i, ys * 2, so, spec['ordering'], dim)
        # (what lies beyond the listed sets comes from the value)
        close(dense(zs), put(np.full_like(x, -77.0), idx, take(x, idx) * 2), 0, 'i2e_data-sparse', 'sparse data converted back')
        close(dense(so), np.full_like(x, -77.0), 0, 'mutated', 'i2e_data changed its sparse argument')
    # data of another type: what is not converted keeps its value
    yi = np.arange(y.size).reshape(y.shape)
    oi = np.full_like(x, -77.5)
    close(i2e_data(i, yi, oi, spec['ordering'], dim), put(oi, idx, yi), 0, 'i2e_data-type', 'whole numbers converted back over fractions')
    oi = np.full(x.shape, -77)
    close(i2e_data(i, y, oi, spec['ordering'], dim), put(oi.astype(float), idx, y), 0, 'i2e_data-type', 'fractions converted back over whole numbers')
    yc = y * 1j
    expect(np.array_equal(i2e_data(i, yc, oi, spec['ordering'], dim), put(oi.astype(complex), idx, yc)), 'i2e_data-type', 'complex numbers converted back')
    old = np.full_like(x, -77.0)
    old0 = old.copy()
    z = i2e_data(i, y * 2, old, spec['ordering'], dim)
    close(z, put(old, idx, take(x, idx) * 2), 0, 'i2e_data', 'converted back over other data')
    close(old, old0, 0, 'mutated', 'i2e_data changed its argument')
    close(i2e_data(i, y, x, spec['ordering'], dim), x, 0, 'data-round-trip', 'i2e(e2i(x))')
    # fields, possibly nested
    names = ['user', 'deep', 'er'][:spec['depth']]
    p = snapshot(i)
    node = p
    for nm in names[:-1]:
        node[nm] = {'other': 1}
        node = node[nm]
    node[names[-1]] = x.copy()
    field = names[0] if len(names) == 1 and spec['cycles'] == 1 else names

    def get(q):
        for nm in names:
            q = q[nm]
        return q
    p = e2i_field(p, field, spec['ordering'], dim)
    close(get(p), take(x, idx), 0, 'e2i_field', 'field after e2i_field')
    q = p
    for nm in names[:-1]:
        q = q[nm]
    q[names[-1]] = get(p) + 1
    p = i2e_field(p, field, spec['ordering'], dim)
    close(get(p), put(x, idx, take(x, idx) + 1), 0, 'i2e_field', 'field after i2e_field')
    # a second field sharing the first one's parents, and the old calling forms
    if len(names) > 1:
        other = names[:1] + ['two'] * (len(names) - 1)
        q = p
        for nm in other[:-1]:
            q = q.setdefault(nm, {})
        q[other[-1]] = x * 3
        p = e2i_field(p, other, spec['ordering'], dim)
        q = p
        for nm in other:
            q = q[nm]
        close(q, take(x, idx) * 3, 0, 'e2i_field', 'second nested field')
        p = i2e_field(p, other, spec['ordering'], dim)
        q = p
        for nm in other:
            q = q[nm]
        close(q, x * 3, 0, 'i2e_field', 'second nested field')
    close(ext2int(i, x, spec['ordering'], dim), y, 0, 'old-form', 'ext2int(ppc, val, ...)')
    close(int2ext(i, y, x, spec['ordering'], dim), x, 0, 'old-form', 'int2ext(ppc, val, oldval, ...)')
    p = snapshot(i)
    p['fld'] = x.copy()
    p = ext2int(p, 'fld', spec['ordering'], dim)
    close(p['fld'], y, 0, 'old-form', 'ext2int(ppc, field, ...)')
    p = int2ext(p, 'fld', spec['ordering'], dim)
    close(p['fld'], x, 0, 'old-form', 'int2ext(ppc, field, ...)')
    # the old-style matrix conversion
    b, g, r = case['bus'].copy(), case['gen'].copy(), case['branch'].copy()
    a = case['areas'].copy() if 'areas' in case else None
    out = ext2int1(b, g, r, a)
    num = [int(v) for v in case['bus'][:, 0]]
    pos = {v: k for k, v in enumerate(num)}
    close(out[1][:, 0], range(len(num)), 0, 'ext2int1')
    close(out[2][:, 0], [pos[int(v)] for v in case['gen'][:, 0]], 0, 'ext2int1')
    close(out[3][:, :2], [[pos[int(v)] for v in row[:2]] for row in case['branch']], 0, 'ext2int1')
    if a is not None:
        close(out[4][:, 1], [pos[int(v)] for v in case['areas'][:, 1]], 0, 'ext2int1')
    back = int2ext1(*out) if a is not None else int2ext1(out[0], out[1], out[2], out[3], None)
    for k, t in enumerate(['bus', 'gen', 'branch'] + (['areas'] if a is not None else [])):
        close(back[k], case[t], 0, 'int2ext1', t)
    if L.brout or L.gout or len(L.rows) < len(case['bus']) or 'permute' in net['feats']:
        labels.append('nontrivial')
    return labels


SUBS = [
    Sub('case', gen.spec_strategy(make), check, 2400, 40000),
    Sub('data', gen.spec_strategy(make), check_data, 2400, 40000),
]
