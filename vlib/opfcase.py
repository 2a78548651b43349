"""OPF models: the code's callbacks next to an independent model of the same problem."""
import math
import numpy as np
from vlib import gen, ref, acopf


def draw_usercost(d, nx, unit=1.0):
    nw = d.i(1, 3)
    e = d.cells(60 + 8 * nw * 6)
    N, dd, rh, kk, mm, Cw = [], [], [], [], [], []
    for _ in range(nw):
        row = [0.0] * nx
        for _ in range(e.i_(1, 4)):
            row[e.i_(0, nx - 1)] = e.c(-3, 3, 2)
        N.append(row)
        dd.append(e.pick([1, 2, 1, 2, 1]))
        rh.append(e.c(-1, 1, 3))
        kk.append(e.pick([0.0, 0.0, 0.3, 0.05]))
        mm.append(e.pick([1.0, 1.0, 2.5, .5]))
        Cw.append(e.c(-20, 60, 1))
    H = None
    if e.chance(.6):
        H = [[0.0] * nw for _ in range(nw)]
        for i in range(nw):
            H[i][i] = e.f(0, 5, 2)
            for j in range(i):
                H[i][j] = H[j][i] = e.c(-1, 1, 2) if e.chance(.5) else 0.0
    return {'N': N, 'dd': dd, 'rh': rh, 'kk': kk, 'mm': mm, 'Cw': Cw, 'H': H, 'fparm': True}


def make_model(d):
    net = gen.draw_net(d, nb_max=6, forbid=('multiref', 'isolated', 'offbr', 'offgen', 'deadpv', 'negq', 'extracols'))
    acopf.add_opf(d, net, pqcap=.2, qcost=.5)
    ppc = net['ppc']
    L = ref.Live(ppc)
    ppc['gen'] = [r for k, r in enumerate(ppc['gen']) if k in L.g]
    gc = ppc['gencost']
    ng0 = len(L.gen)
    ppc['gencost'] = [gc[k] for k in L.g] + ([gc[ng0 + k] for k in L.g] if len(gc) > ng0 else [])
    ng, n = len(ppc['gen']), L.n
    ny = sum(1 for r in ppc['gencost'] if r[0] == 1 and r[3] > 2)
    spec = {'net': net, 'flow_lim': d.pick([0, 0, 1, 2]), 'ucost': None}
    nx = 2 * n + 2 * ng
    if d.chance(.45):
        spec['ucost'] = draw_usercost(d, nx)
    e = d.cells(4 * (nx + ny) + 30)
    wide = e.chance(.3)
    x = []
    for i in range(n):
        x.append(round(e.c(-.6, .6) * (4 if wide else 1), 4))
    for i in range(n):
        x.append(e.c(.85, 1.15) if not wide else e.c(.5, 1.5))
    for r in ppc['gen']:
        x.append(round(e.f(r[9] - .05, r[8] + .05) / ppc['baseMVA'] + 1e-4, 5))
    for r in ppc['gen']:
        x.append(round(e.f(r[4] - .05, r[3] + .05) / ppc['baseMVA'] + 1e-4, 5))
    for _ in range(ny):
        x.append(e.f(0, 500, 2))
    spec['x'] = x
    nlim = sum(1 for r in ppc['branch'] if 0 < r[5] < 1e10)
    e = d.cells(4 * (2 * n + 2 * nlim) + 8)
    spec['lam'] = [e.c(-50, 50, 2) for _ in range(2 * n)]
    spec['mu'] = [e.f(0, 50, 2) if e.chance(.7) else 0.0 for _ in range(2 * nlim)]
    spec['cm'] = e.pick([1.0, 1e-4, .5])
    return spec


class Model(object):
    def __init__(self, spec):
        from pypower.ext2int import ext2int
        from pypower.opf_setup import opf_setup
        from pypower.makeYbus import makeYbus
        from pypower.ppoption import ppoption
        from scipy.sparse import csr_matrix
        self.spec = spec
        ppc = gen.arr(spec['net']['ppc'])
        ppc['bus'] = np.hstack([ppc['bus'], np.zeros((len(ppc['bus']), 17 - ppc['bus'].shape[1]))])
        ppc['gen'] = np.hstack([ppc['gen'], np.zeros((len(ppc['gen']), 25 - ppc['gen'].shape[1]))])
        ppc['branch'] = np.hstack([ppc['branch'], np.zeros((len(ppc['branch']), 21 - ppc['branch'].shape[1]))])
        self.opt = ppoption(VERBOSE=0, OUT_ALL=0, OPF_FLOW_LIM=spec['flow_lim'])
        i = ext2int(ppc)
        # the reference problem is stated on the internal rows
        order = i['order']
        self.L = L = ref.Live({'baseMVA': i['baseMVA'], 'bus': i['bus'].copy(), 'gen': i['gen'].copy(), 'branch': i['branch'].copy()})
        self.gencost = i['gencost'].copy()
        self.n, self.ng = L.n, len(L.gen)
        nx = 2 * self.n + 2 * self.ng
        self.uc = spec['ucost']
        if self.uc:
            u = self.uc
            i['N'] = csr_matrix(np.array(u['N'], float))
            i['Cw'] = np.array(u['Cw'], float)
            i['fparm'] = np.array([u['dd'], u['rh'], u['kk'], u['mm']], float).T
            if u['H'] is not None:
                i['H'] = csr_matrix(np.array(u['H'], float))
            # N must have as many columns as x and the y variables are not user variables
        self.om = opf_setup(i, self.opt)
        self.om.build_cost_params()
        self.A = acopf.AcNet(L)
        self.il = [k for k in range(len(L.branch)) if 0 < L.branch[k, 5] < 1e10]
        self.x = np.array(spec['x'], float)
        b = i
        self.Ybus, self.Yf, self.Yt = makeYbus(b['baseMVA'], b['bus'], b['branch'])
        self.nx = nx
        self.big = 10 + 10 * (np.abs(self.A.G).max() + np.abs(self.A.B).max()) + np.abs(self.x).max()
        self.big2 = self.big ** 2
        self.pwl = [k for k in range(len(self.gencost)) if self.gencost[k, 0] == 1 and self.gencost[k, 3] > 2]

    # --- independent model
    def cost(self, x):
        base = self.L.base
        pq = x[2 * self.n:2 * self.n + 2 * self.ng] * base
        f = 0.0
        for k, row in enumerate(self.gencost):
            if k not in self.pwl:
                f = f + acopf.gencost_value(row, pq[k])
        f = f + x[self.nx:].sum(axis=0)
        if self.uc:
            f = f + acopf.user_cost(self.uc, x[:self.nx])
        return f

    def eq(self, x):
        n, ng, L = self.n, self.ng, self.L
        p, q = self.A.inj(x[:n], x[n:2 * n])
        col = (slice(None), None) if np.ndim(x) == 2 else slice(None)
        p = p + L.Sd.real[col]
        q = q + L.Sd.imag[col]
        for k, b in enumerate(L.gb):
            p[b] = p[b] - x[2 * n + k]
            q[b] = q[b] - x[2 * n + ng + k]
        return np.concatenate([p, q])

    def ineq(self, x):
        n, L = self.n, self.L
        f, t = self.A.flow2(x[:n], x[n:2 * n], self.spec['flow_lim'])
        lim = np.array([(L.branch[k, 5] / L.base) ** 2 for k in self.il])
        pos = [L.br.index(k) for k in self.il]
        if np.ndim(x) == 2:
            lim = lim[:, None]
        return np.concatenate([f[pos] - lim, t[pos] - lim])

    def lagr(self, x, lam, mu, cm):
        v = cm * self.cost(x) + lam @ self.eq(x)
        if self.il:
            v = v + mu @ self.ineq(x)
        return v

    # --- the code under test
    def code_cost(self, hess=False):
        from pypower.opf_costfcn import opf_costfcn
        return opf_costfcn(self.x.copy(), self.om, hess) if hess else opf_costfcn(self.x.copy(), self.om)

    def code_cons(self):
        from pypower.opf_consfcn import opf_consfcn
        return opf_consfcn(self.x.copy(), self.om, self.Ybus, self.Yf[self.il], self.Yt[self.il], self.opt, np.array(self.il, int))

    def code_hess(self, lam, mu, cm):
        from pypower.opf_hessfcn import opf_hessfcn
        return opf_hessfcn(self.x.copy(), {'eqnonlin': lam, 'ineqnonlin': mu}, self.om, self.Ybus, self.Yf[self.il], self.Yt[self.il],
                           self.opt, np.array(self.il, int), cm)

    def labels(self):
        ls = ['n=%d' % self.n, 'flow_lim=%d' % self.spec['flow_lim'], 'limits=%s' % bool(self.il), 'ucost=%s' % bool(self.uc)]
        ls += ['f:' + f for f in self.spec['net']['feats']]
        if self.pwl:
            ls.append('pwl')
        if self.n > 2:
            ls.append('nontrivial')
        return ls
