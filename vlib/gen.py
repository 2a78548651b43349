"""Structured generators.  Everything random comes from Hypothesis draws.

`Cells` decodes a drawn byte string into structured values (a data provider):
byte 0 is always the simplest choice, so shrinking moves towards plain cases.
"""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import ref

BASE_BUS = ['BUS_I', 'TYPE', 'PD', 'QD', 'GS', 'BS', 'AREA', 'VM', 'VA', 'KV', 'ZONE', 'VMAX', 'VMIN']


class Cells(object):
    def __init__(self, data):
        self.data, self.i = data, 0

    def u8(self):
        v = self.data[self.i] if self.i < len(self.data) else 0
        self.i += 1
        return v

    def u16(self):
        return self.u8() * 256 + self.u8()

    def f(self, lo, hi, nd=4):
        """A value in [lo, hi] on a 65536-point grid, rounded to nd digits."""
        return round(lo + (hi - lo) * self.u16() / 65535.0, nd)

    def c(self, lo, hi, nd=4):
        """As f, but centred: byte 0 gives the midpoint."""
        u = self.u16()
        u = (u + 1) // 2 * (1 if u % 2 else -1) / 32768.0     # in [-1, 1]
        return round((lo + hi) / 2.0 + u * (hi - lo) / 2.0, nd)

    def i_(self, lo, hi):
        return lo + (self.u16() % (hi - lo + 1) if hi - lo > 255 else self.u8() * (hi - lo + 1) // 256)

    def chance(self, p):
        return self.u8() >= 256 * (1 - p)

    def b(self):
        return not self.chance(.5)

    def pick(self, seq):
        return seq[self.u8() * len(seq) // 256]

    def perm(self, n):
        p = list(range(n))
        for i in range(n - 1, 0, -1):
            j = i - self.i_(0, i)
            p[i], p[j] = p[j], p[i]
        return p


class Dr(object):
    """All random choices of a case, decoded from one drawn byte string.

    One blob (instead of many small draws) keeps Hypothesis's span-copying
    mutator from collapsing the distribution; shrinking zeroes bytes.
    """
    def __init__(self, draw, size=3000):
        self.c = Cells(draw(st.binary(min_size=size, max_size=size)))

    def cells(self, n):
        d = self.c.data[self.c.i:self.c.i + n]
        self.c.i += n
        return Cells(d)

    def i(self, lo, hi):
        return self.c.i_(lo, hi)

    def b(self):
        return self.c.chance(.5)

    def pick(self, seq):
        return self.c.pick(list(seq))

    def chance(self, p):
        return self.c.chance(p)

    def f(self, lo, hi, nd=4):
        return self.c.f(lo, hi, nd)

    def cf(self, lo, hi, nd=4):
        return self.c.c(lo, hi, nd)


def spec_strategy(fn, *a, **k):
    """Strategy from fn(Dr, ...) -> JSON-able spec."""
    size = k.pop('size', 3000)

    @st.composite
    def inner(draw):
        return fn(Dr(draw, size), *a, **k)
    return inner()


# features of a network, each on with its probability (swarm testing)
FEATURES = [('taps', .5), ('shifts', .4), ('shunts', .5), ('charging', .7), ('parallel', .3),
            ('offbr', .35), ('offgen', .35), ('isolated', .3), ('multigen', .45), ('pqgen', .25),
            ('permute', .6), ('extnum', .7), ('areas', .3), ('negq', .2), ('deadpv', .2),
            ('multiref', .08), ('r0', .15), ('ratiofar', .15), ('extracols', .15), ('dupgenbus', .1),
            ('negx', .0), ('bigbase', .3)]


def draw_net(d, nb_max=9, nb_min=2, features=None, force=(), forbid=(), stress=1.0, lossless=False,
             ng_extra=True):
    """A connected network with a known exact operating point.

    Returns dict(ppc=..., sol=dict(vm, va) by bus row, feats=[...]).
    """
    c = d.cells(16 + len(FEATURES))
    feats = set(f for f, p in FEATURES if c.chance(p))
    if features is not None:
        feats = set(features)
    feats |= set(force)
    feats -= set(forbid)
    n = d.i(nb_min, nb_max)                    # energised buses
    base = 100.0
    if 'bigbase' in feats:
        base = c.pick([100.0, 10.0, 1.0, 250.0, 1000.0])
    nx = c.i_(0, 2) + 1 if 'isolated' in feats else 0

    # --- buses: operating point
    bc = [d.cells(16) for _ in range(n)]
    parent, vm, va = [None], [], []
    for i in range(n):
        if i:
            parent.append(i - 1 - bc[i].i_(0, i - 1))
        vm.append(round(1.0 + bc[i].c(-.06, .08), 4))
        va.append(0.0 if i == 0 else round(va[parent[i]] + bc[i].c(-9, 9, 3) * stress, 3))
    va0 = c.c(-30, 30, 2) if c.chance(.3) else 0.0
    va = [round(a + va0, 4) for a in va]

    # --- branches
    ends = [(parent[i], i) for i in range(1, n)]
    nextra = d.i(0, max(0, n)) if n > 2 else 0
    for k in range(nextra):
        e = d.cells(2)
        f = e.i_(0, n - 1)
        t = e.i_(0, n - 1)
        if f == t:
            t = (f + 1) % n
        if not 'parallel' in feats and ((f, t) in ends or (t, f) in ends):
            continue
        ends.append((f, t))
    ntree = n - 1
    brs = []
    rc = d.cells(8)
    off_extra = rc.i_(0, 3) if 'offbr' in feats else 0
    allends = [(e, 1) for e in ends]
    for k in range(off_extra):
        f = rc.i_(0, n - 1)
        allends.append((((f, (f + 1) % n)) if n > 1 else None, 0))
    allends = [a for a in allends if a[0] is not None and a[0][0] != a[0][1]]
    for k, ((f, t), on) in enumerate(allends):
        e = d.cells(20)
        x = e.f(.03, .35)
        r = 0.0 if (lossless or ('r0' in feats and e.chance(.5))) else round(x * e.f(.02, .6), 5)
        b = e.f(0, .12) if 'charging' in feats else 0.0
        tap = 0.0
        if 'taps' in feats and e.chance(.45):
            tap = e.c(.92, 1.08)
            if 'ratiofar' in feats:
                tap = e.c(.85, 1.2)
        sh = e.c(-14, 14, 2) if 'shifts' in feats and e.chance(.4) else 0.0
        if e.chance(.5):
            f, t = t, f
        if on and k >= ntree and 'offbr' in feats and e.chance(.25):
            on = 0
        brs.append([f, t, r, x, b, 0.0, 0.0, 0.0, tap, sh, on, -360.0, 360.0])

    # --- isolated buses (type 4) with elements hanging on them
    xb = []
    for k in range(nx):
        e = d.cells(12)
        xb.append({'pd': e.f(0, 40), 'qd': e.f(-10, 20)})
        if e.chance(.7):
            brs.append([n + k, e.i_(0, n - 1), .01, e.f(.05, .3), e.f(0, .1), 0., 0., 0., 0., 0.,
                        1 if e.chance(.8) else 0, -360., 360.])
            if e.chance(.5):
                brs[-1][0], brs[-1][1] = brs[-1][1], brs[-1][0]

    # --- bus types
    types = [1] * (n + nx)
    types[0] = 3
    for i in range(1, n):
        if bc[i].chance(.38):
            types[i] = 2
    if 'multiref' in feats and n > 3:
        types[n - 1] = 3
    for k in range(nx):
        types[n + k] = 4

    # --- generators: at bus, status
    gens = []          # [bus, status]
    for i in range(n):
        if types[i] in (2, 3):
            gens.append([i, 1])
            if 'multigen' in feats and bc[i].chance(.5):
                gens.append([i, 1])
                if bc[i].chance(.3):
                    gens.append([i, 1])
            if 'offgen' in feats and bc[i].chance(.3):
                gens.append([i, 0])
        elif 'pqgen' in feats and bc[i].chance(.3):
            gens.append([i, 1])
        elif 'offgen' in feats and bc[i].chance(.15):
            gens.append([i, 0])
    if 'deadpv' in feats:            # PV bus whose generators are all off: becomes PQ
        for i in range(1, n):
            if types[i] == 2 and bc[i].chance(.4):
                for g in gens:
                    if g[0] == i:
                        g[1] = 0
    for k in range(nx):
        e = d.cells(2)
        if e.chance(.5):
            gens.append([n + k, 1 if e.chance(.7) else 0])

    # --- injections at the operating point
    shg = [bc[i].c(-.05, .1) * base if 'shunts' in feats and bc[i].chance(.4) else 0.0 for i in range(n)]
    shb = [bc[i].c(-.1, .25) * base if 'shunts' in feats and bc[i].chance(.4) else 0.0 for i in range(n)]
    shg = [round(x, 4) for x in shg] + [3.0] * nx
    shb = [round(x, 4) for x in shb] + [-2.0] * nx
    Y = np.zeros((n, n), complex)
    for b in brs:
        if b[10] and b[0] < n and b[1] < n:
            yff, yft, ytf, ytt = ref.branch_y(b)
            f, t = int(b[0]), int(b[1])
            Y[f, f] += yff
            Y[f, t] += yft
            Y[t, f] += ytf
            Y[t, t] += ytt
    for i in range(n):
        Y[i, i] += (shg[i] + 1j * shb[i]) / base
    V = np.array(vm) * np.exp(1j * np.pi / 180 * np.array(va))
    S = V * np.conj(Y @ V) * base

    # --- loads and dispatch
    grow, pd, qd = [], [0.0] * (n + nx), [0.0] * (n + nx)
    for i in range(n):
        on = [g for g in gens if g[0] == i and g[1]]
        fixed = types[i] == 1 or not on        # PQ bus
        if on:
            pd[i], qd[i] = bc[i].f(0, 0.8) * base, bc[i].c(-.2, .4) * base
            pd[i], qd[i] = round(pd[i], 4), round(qd[i], 4)
        if fixed and not on:
            pd[i], qd[i] = -S[i].real, -S[i].imag
    gi = 0
    byb = {}
    for g in gens:
        byb.setdefault(g[0], []).append(g)
    out = []
    for i, gl in byb.items():
        onl = [g for g in gl if g[1]] if i < n else []
        ptot = S[i].real + pd[i] if i < n else 0.0
        qtot = S[i].imag + qd[i] if i < n else 0.0
        e = d.cells(14 * len(gl))
        w = [e.f(.2, 1) for _ in onl]
        left_p, left_q = ptot, qtot
        k = 0
        for g in gl:
            if i < n and g[1]:
                last = (k == len(onl) - 1)
                p = left_p if last else round(ptot * w[k] / sum(w), 3)
                q = left_q if last else round(qtot * w[k] / sum(w), 3)
                left_p -= p
                left_q -= q
                k += 1
            else:
                p, q = e.f(0, 50), e.f(0, 20)
            qmin, qmax = -round(e.f(.2, 3) * base, 2), round(e.f(.3, 4) * base, 2)
            if e.chance(.08):
                qmin = qmax = round(e.c(-.5, .5) * base, 2)
            pmax = max(0.0, round(p, 3)) + round(e.f(.1, 3) * base, 2)
            vg = vm[i] if i < n else 1.0
            if not g[1]:
                vg = 1.1
            st_ = g[1]
            if not g[1] and 'negq' in feats:
                st_ = -1             # any non-positive status is out of service
            out.append([i, p, q, qmax, qmin, vg, base, st_, pmax, 0.0] + [0.0] * 11)
    grow = out

    # --- bus rows
    rows = []
    for i in range(n + nx):
        e = d.cells(6)
        area = e.i_(1, 3) if 'areas' in feats else 1
        zone = e.i_(1, 3)
        rows.append([i, types[i], pd[i] if i < n else xb[i - n]['pd'], qd[i] if i < n else xb[i - n]['qd'],
                     shg[i], shb[i], area, vm[i] if i < n else 1.0, va[i] if i < n else 0.0, 135.0, zone, 1.1, .9])
    vm_s = vm + [1.0] * nx
    va_s = va + [0.0] * nx

    # --- numbering and row order
    N = n + nx
    e = d.cells(4 * N + 4)
    if 'extnum' in feats:
        mode = e.pick([1, 2, 2, 3])
        if mode == 1:
            num = [p + 1 for p in e.perm(N)]
        elif mode == 2:
            gaps = [e.i_(1, 20) for _ in range(N)]
            s = np.cumsum(gaps)
            p = e.perm(N)
            num = [int(s[p[i]]) for i in range(N)]
        else:
            s = [1000 * (k + 1) + e.i_(0, 900) for k in range(N)]
            num = [s[N - 1 - i] for i in range(N)]
    else:
        num = list(range(1, N + 1))
    porder = list(range(N))
    border = list(range(len(brs)))
    gorder = list(range(len(grow)))
    if 'permute' in feats:
        porder = e.perm(N)
        border = d.cells(len(brs) + 2).perm(len(brs))
        gorder = d.cells(len(grow) + 2).perm(len(grow))
    bus = [rows[i] for i in porder]
    branch = [brs[i] for i in border]
    gen = [grow[i] for i in gorder]
    bus = [[num[int(r[0])]] + r[1:] for r in bus]
    branch = [[num[int(r[0])], num[int(r[1])]] + r[2:] for r in branch]
    gen = [[num[int(r[0])]] + r[1:] for r in gen]
    ppc = {'version': '2', 'baseMVA': base, 'bus': bus, 'gen': gen, 'branch': branch}
    sol = {'vm': [vm_s[i] for i in porder], 'va': [va_s[i] for i in porder]}
    return {'ppc': ppc, 'sol': sol, 'feats': sorted(feats)}


def perturb_start(d, ppc, dv=.02, da=3.0):
    """Move the initial guess (VM of all buses, VA of all but the ref) off the solution."""
    for r in ppc['bus']:
        e = d.cells(4)
        r[7] = round(r[7] + e.c(-dv, dv), 4)
        if int(r[1]) != 3:
            r[8] = round(r[8] + e.c(-da, da, 3), 4)


def arr(ppc):
    """JSON case -> PYPOWER case dict of float arrays."""
    out = {}
    for k, v in ppc.items():
        if k in ('bus', 'gen', 'branch', 'gencost', 'areas'):
            v = np.array(v, dtype=float)
            if v.ndim == 1:
                v = v.reshape(0, {'bus': 13, 'gen': 21, 'branch': 13, 'gencost': 7, 'areas': 2}[k])
        out[k] = v
    return out


def whole(ppc):
    """Make the generator table one of whole numbers (in place)."""
    for r in ppc['gen']:
        r[:] = [float(round(v)) if isinstance(v, (int, float)) and abs(v) < 1e15 else v for v in r]
        r[5] = 1.0
        r[6] = r[6] or 100.0


def ints(case):
    """Store the tables that hold only whole numbers as integers, the way array([[1, 3, ...]]) does."""
    for k in ('bus', 'gen', 'branch', 'gencost'):
        if k in case and np.isfinite(case[k]).all() and (case[k] == np.round(case[k])).all():
            case[k] = case[k].astype(int)
    return case


def internal(ppc, keep_off=False):
    """Internal-numbered arrays made by this harness (not by ext2int):
    live buses renumbered 0.., live gens, branches between live buses
    (with the out-of-service ones too when keep_off)."""
    L = ref.Live(ppc)
    bus = L.bus[L.rows].copy()
    bus[:, 0] = range(L.n)
    brk = [k for k in range(len(L.branch)) if int(L.branch[k, 0]) in L.idx and int(L.branch[k, 1]) in L.idx
           and (keep_off or k in L.br)]
    br = L.branch[brk].copy()
    for r in br:
        r[0], r[1] = L.idx[int(r[0])], L.idx[int(r[1])]
    gk = [k for k in range(len(L.gen)) if int(L.gen[k, 0]) in L.idx and (keep_off or k in L.g)]
    g = L.gen[gk].copy()
    for r in g:
        r[0] = L.idx[int(r[0])]
    return L.base, bus, g, br, L
