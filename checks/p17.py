"""P17  The OPF model object assembles what was added (model-based, against a plain list of blocks)."""
import copy
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, acopf
from vlib.util import close, dense, same

ID = 'P17'
RULE = ('random histories of add_vars / add_constraints (linear and nonlinear) / add_costs / userdata / queries on one opf_model, with empty '
        'blocks, omitted bounds, variable subsets in any order and any sparse format; oracle: a plain list of blocks; non-trivial = at least two '
        'variable blocks and a block defined on a subset or reordering of them')
INF = float('inf')


def make(d):
    nops = d.i(2, 14)
    ops, nvs, names = [], {}, []
    for k in range(nops):
        e = d.cells(240)
        kind = e.pick(['var', 'lin', 'cost', 'query', 'var', 'lin', 'cost', 'nln', 'user'])
        if not names:
            kind = 'var'
        nm = '%s%d' % (kind, k)
        if kind == 'var':
            n = e.i_(0, 4) if e.chance(.9) else 0
            vec = lambda lo, hi: [e.c(lo, hi, 2) for _ in range(n)] if e.chance(.7) else e.pick([None, 'empty'])
            ops.append({'op': 'var', 'name': nm, 'n': n, 'v0': vec(-2, 2), 'vl': vec(-9, -3), 'vu': vec(3, 9)})
            names.append(nm)
            nvs[nm] = n
        elif kind == 'nln':
            ops.append({'op': 'nln', 'name': nm, 'n': e.i_(0, 5)})
        elif kind == 'user':
            ops.append({'op': 'user', 'name': e.pick(['a', 'b']), 'val': e.c(-5, 5, 2)})
        elif kind == 'query':
            ops.append({'op': 'query', 'x': [e.c(-3, 3, 2) for _ in range(sum(nvs.values()))]})
        else:
            vs = None
            if e.chance(.65):
                p = e.perm(len(names))
                vs = [names[i] for i in p[:max(1, e.i_(1, len(names)))]]
            elif e.chance(.5):
                vs = []
            nv = sum(nvs[v] for v in (vs or names))
            nr = e.i_(1, 3) if e.chance(.88) else 0
            M = [[e.c(-3, 3, 2) if e.chance(.6) else 0.0 for _ in range(nv)] for _ in range(nr)]
            o = {'op': kind, 'name': nm, 'vs': vs, 'M': M, 'nv': nv, 'fmt': e.pick(['csr', 'csc', 'csr', 'lil'])}
            if kind == 'lin':
                o['l'] = [e.c(-9, 0, 2) for _ in range(nr)] if e.chance(.7) else 'empty'
                o['u'] = [e.c(0, 9, 2) for _ in range(nr)] if e.chance(.7) else 'empty'
            else:
                o['Cw'] = [e.c(-9, 9, 2) for _ in range(nr)]
                o['dd'] = [e.pick([1, 2]) for _ in range(nr)] if e.chance(.6) else None
                o['rh'] = [e.c(-1, 1, 2) for _ in range(nr)] if e.chance(.6) else None
                o['kk'] = [e.f(0, 1, 2) if e.chance(.6) else 0.0 for _ in range(nr)] if e.chance(.6) else None
                o['mm'] = [e.f(.2, 3, 2) for _ in range(nr)] if e.chance(.6) else None
                o['H'] = [[e.c(-2, 2, 2) for _ in range(nr)] for _ in range(nr)] if e.chance(.6) else None
                o['badcols'] = nr == 0 and e.chance(.5)
            ops.append(o)
    e = d.cells(80)
    ops.append({'op': 'query', 'x': [e.c(-3, 3, 2) for _ in range(sum(nvs.values()))]})
    return {'ops': ops}


def spm(M, nr, nv, fmt):
    import scipy.sparse as sp
    return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'lil': sp.lil_matrix}[fmt](np.array(M, float).reshape(nr, nv))


class Plain(object):
    def __init__(self):
        self.blocks = []        # ops in order

    def of(self, kind):
        return [b for b in self.blocks if b['op'] == kind]

    def off(self):
        o, p = {}, 0
        for b in self.of('var'):
            o[b['name']] = p
            p += b['n']
        return o, p

    def spread(self, b):
        """Rows of a lin/cost block over all variables."""
        o, n = self.off()
        M = np.array(b['M'], float).reshape(len(b['M']), b['nv'])
        W = np.zeros((len(M), n))
        k = 0
        for v in b['vsl']:
            nv = [x['n'] for x in self.of('var') if x['name'] == v][0]
            W[:, o[v]:o[v] + nv] = M[:, k:k + nv]
            k += nv
        return W


def usercost(blocks, x):
    f = 0.0
    for W, b in blocks:
        n = len(W)
        if not n:
            continue
        cp = {'N': W.tolist(), 'Cw': b['Cw'], 'dd': b['dd'] or [1] * n, 'rh': b['rh'] or [0.0] * n, 'kk': b['kk'] or [0.0] * n,
              'mm': b['mm'] or [1.0] * n, 'H': b['H']}
        f += cost_def(cp, x)
    return f


def cost_def(cp, x):
    """The documented formula, row by row."""
    w = []
    for i, row in enumerate(cp['N']):
        r = sum(a * b for a, b in zip(row, x)) - cp['rh'][i]
        k = cp['kk'][i]
        if -k <= r <= k and not (r == 0 and k == 0):
            w.append(0.0)
            continue
        rr = r + (k if r < -k else -k if r > k else 0.0)
        w.append(cp['mm'][i] * (rr if cp['dd'][i] == 1 else rr * rr))
    w = np.array(w)
    v = float(np.dot(cp['Cw'], w))
    if cp['H'] is not None:
        v += .5 * float(w @ np.array(cp['H'], float) @ w)
    return v


def vecarg(v):
    return None if v is None else np.array([]) if v == 'empty' else np.array(v, float)


def verify(om, P, x, seen):
    o, n = P.off()
    vv, ll, nn, cc = om.get_idx()
    for kind, idx in (('var', vv), ('lin', ll), ('nln', nn), ('cost', cc)):
        p = 0
        for b in P.of(kind):
            k = b['n'] if 'n' in b else len(b['M'])
            nm = b['name']
            expect((idx['i1'][nm], idx['iN'][nm], idx['N'][nm]) == (p, p + k, k), 'idx', '%s block %s: %s, expected %s' %
                   (kind, nm, (idx['i1'][nm], idx['iN'][nm], idx['N'][nm]), (p, p + k, k)))
            expect(om.getN(kind, nm) == k, 'getN', 'size of %s block %s' % (kind, nm))
            p += k
        expect(om.getN(kind) == p, 'getN', 'number of %s' % kind)
        expect(om.getN(kind, 'no such block') == 0, 'getN', 'size of an unknown block')
    v0, vl, vu = [], [], []
    for b in P.of('var'):
        m = b['n']
        a = [np.array(b['v0'], float) if isinstance(b['v0'], list) else np.zeros(m),
             np.array(b['vl'], float) if isinstance(b['vl'], list) else np.full(m, -INF),
             np.array(b['vu'], float) if isinstance(b['vu'], list) else np.full(m, INF)]
        g = om.getv(b['name'])
        for q, r in zip(g, a):
            expect(same(np.asarray(q, float), r), 'getv', 'data of variable block %s: %s, expected %s' % (b['name'], q, r))
        v0.append(a[0]), vl.append(a[1]), vu.append(a[2])
    for q, r in zip(om.getv(), (v0, vl, vu)):
        expect(same(np.asarray(q, float), np.concatenate(r) if r else np.zeros(0)), 'getv', 'data of all variables')
    A, l, u = om.linear_constraints()
    lin = P.of('lin')
    rows = [P.spread(b) for b in lin]
    nr = sum(len(r) for r in rows)
    if nr == 0:
        expect(A is None or A.shape[0] == 0, 'lin', 'linear constraints of a model without any')
    else:
        close(dense(A), np.vstack(rows), 0, 'lin-A', 'stacked linear constraint matrix')
        for q, f, dflt in ((l, 'l', -INF), (u, 'u', INF)):
            r = np.concatenate([np.array(b[f], float) if b[f] != 'empty' else np.full(len(b['M']), dflt) for b in lin])
            expect(same(np.asarray(q, float), r), 'lin-' + f, 'limits of linear constraints: %s, expected %s' % (q, r))
    om.build_cost_params()
    cp = om.get_cost_params()
    cost = P.of('cost')
    blocks = [(P.spread(b), b) for b in cost]
    nw = sum(len(w) for w, b in blocks)
    expect(cp['N'].shape == (nw, n) and cp['H'].shape == (nw, nw), 'cost-shape', 'shape of the cost parameters')
    if nw:
        close(dense(cp['N']), np.vstack([w for w, b in blocks]), 0, 'cost-N', 'N')
        H = np.zeros((nw, nw))
        p = 0
        for w, b in blocks:
            k = len(w)
            if b['H'] is not None and k:
                H[p:p + k, p:p + k] = b['H']
            p += k
        close(dense(cp['H']), H, 0, 'cost-H', 'H')
    for f, dflt in (('Cw', None), ('dd', 1), ('rh', 0), ('kk', 0), ('mm', 1)):
        r = [v for w, b in blocks for v in (b[f] if b[f] is not None else [dflt] * len(w))]
        close(np.asarray(cp[f], float), np.array(r, float), 0, 'cost-' + f, f)
    before = {k: (dense(v).copy()) for k, v in cp.items()}
    xa = np.array(x, float)
    tol = 1e-9 * (1 + sum(usercost([(np.abs(w), {**b, 'Cw': np.abs(b['Cw']).tolist(), 'H': None if b['H'] is None else np.abs(b['H']).tolist(),
                                                 'rh': [-1.0] * len(w), 'kk': None})], np.abs(xa)) for w, b in blocks))
    if n:
        close(om.compute_cost(xa), usercost(blocks, x), tol, 'compute_cost', 'cost of all blocks')
        for w, b in blocks:
            close(om.compute_cost(xa, b['name']), usercost([(w, b)], x), tol, 'compute_cost', 'cost of block %s' % b['name'])
    for w, b in blocks:
        c1 = om.get_cost_params(b['name'])
        close(dense(c1['N']), w, 0, 'cost-block', 'N of block %s' % b['name'])
        close(np.asarray(c1['Cw'], float), np.array(b['Cw'], float), 0, 'cost-block', 'Cw of block %s' % b['name'])
    cp = om.get_cost_params()
    expect(all(np.array_equal(before[k], dense(v)) for k, v in cp.items()), 'params-changed', 'queries changed the cost parameters')
    for k, v in seen.items():
        expect(om.userdata(k) == v, 'userdata', 'user data %s' % k)
    expect(np.size(om.userdata('nothing')) == 0, 'userdata', 'user data never set')
    expect(om.get_ppc() is PPC, 'get_ppc', 'the case')
    s = repr(om)
    for b in P.blocks:
        expect(b['name'] in s, 'repr', 'block %s is not shown' % b['name'])


PPC = {'any': 'case'}


def check(spec):
    from pypower.opf_model import opf_model
    om, P, seen = opf_model(PPC), Plain(), {}
    given, labels = [], ['ops=%d' % len(spec['ops'])]
    sub = False
    for o in spec['ops']:
        k = o['op']
        order = [b['name'] for b in P.of('var')]
        if k == 'var':
            a = [vecarg(o[f]) for f in ('v0', 'vl', 'vu')]
            om.add_vars(o['name'], o['n'], *a)
            P.blocks.append(o)
        elif k == 'nln':
            om.add_constraints(o['name'], o['n'], 'non-linear')
            P.blocks.append(o)
        elif k == 'user':
            om.userdata(o['name'], o['val'])
            seen[o['name']] = o['val']
        elif k in ('lin', 'cost'):
            b = dict(o, vsl=list(o['vs'] or order))
            nr = len(o['M'])
            A = spm(o['M'], nr, o['nv'], o['fmt'])
            if o['vs'] and (len(o['vs']) < len(order) or o['vs'] != order[:len(o['vs'])]):
                sub = True
            if k == 'lin':
                vs = copy.copy(o['vs'])
                if vs is None:
                    om.add_constraints(o['name'], A, vecarg(o['l']), vecarg(o['u']))
                else:
                    om.add_constraints(o['name'], A, vecarg(o['l']), vecarg(o['u']), vs)
            else:
                if o['badcols']:
                    A = spm([], 0, o['nv'] + 1, 'csr')
                cp = {'N': A, 'Cw': np.array(o['Cw'], float)}
                for f in ('dd', 'rh', 'kk', 'mm'):
                    if o[f] is not None:
                        cp[f] = np.array(o[f], float)
                if o['H'] is not None:
                    cp['H'] = spm(o['H'], nr, nr, 'csr')
                c0 = dict(cp)
                om.add_costs(o['name'], cp, copy.copy(o['vs']))
                expect(same(cp, c0), 'mutated', 'the cost data of the caller was modified')
            P.blocks.append(b)
        else:
            verify(om, P, o['x'], seen)
    if len(P.of('var')) > 1 and sub:
        labels.append('nontrivial')
    return labels


SUBS = [Sub('history', gen.spec_strategy(make, size=3600), check, 1600, 30000)]
