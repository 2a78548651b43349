"""Other ways of writing down the same case: a list of rewriting steps, and where each row went."""
import copy
import numpy as np
from vlib import ref


class Written(object):
    """A case and, for each table, the original row behind each of its rows (None: added)."""
    def __init__(self, ppc):
        self.ppc = copy.deepcopy(ppc)
        self.bus, self.gen, self.branch = (list(range(len(ppc[t]))) for t in ('bus', 'gen', 'branch'))
        self.flip = set()       # original branch rows now written from the other end
        self.number = {int(r[0]): int(r[0]) for r in ppc['bus']}    # original -> new bus number

    def costs(self):
        """(P rows, Q rows) of the cost table."""
        gc = self.ppc.get('gencost')
        if gc is None:
            return None, None
        n = len(self.ppc['gen'])
        return gc[:n], gc[n:]

    def setcosts(self, p, q):
        if p is not None:
            self.ppc['gencost'] = list(p) + list(q)

    def renumber(self, f):
        """f: {old number: new number}"""
        p = self.ppc
        for r in p['bus']:
            r[0] = f[int(r[0])]
        for r in p['gen']:
            r[0] = f[int(r[0])]
        for r in p['branch']:
            r[0], r[1] = f[int(r[0])], f[int(r[1])]
        for r in p.get('areas') or []:
            r[1] = f[int(r[1])]
        self.number = {k: f[v] for k, v in self.number.items() if v in f}

    def reorder(self, table, order):
        p, q = self.costs()
        self.ppc[table] = [self.ppc[table][i] for i in order]
        m = getattr(self, table)
        setattr(self, table, [m[i] for i in order])
        if table == 'gen' and p is not None:
            self.setcosts([p[i] for i in order], [q[i] for i in order] if q else [])

    def drop_gens(self, ks):
        self.reorder('gen', [i for i in range(len(self.gen)) if i not in ks])

    def drop_branches(self, ks):
        self.reorder('branch', [i for i in range(len(self.branch)) if i not in ks])

    def add_gen(self, pos, row, cost):
        p, q = self.costs()
        self.ppc['gen'].insert(pos, row)
        self.gen.insert(pos, None)
        if p is not None:
            w = len(p[0]) if p else 7
            row = (cost + [0.0] * w)[:w]
            p.insert(pos, row)
            if q:
                q.insert(pos, list(row))
            self.setcosts(p, q)

    def add_branch(self, pos, row):
        self.ppc['branch'].insert(pos, row)
        self.branch.insert(pos, None)

    def add_bus(self, pos, row):
        self.ppc['bus'].insert(pos, row)
        self.bus.insert(pos, None)


STEPS = ('renumber', 'buses', 'gens', 'branches', 'flip', 'ratio', 'addbranch', 'addgen', 'addbus', 'delete', 'columns', 'negstatus')


def draw(d, ppc, steps=None, k=None):
    """A random rewriting of ppc."""
    w = Written(ppc)
    steps = list(steps or STEPS)
    n = k or d.pick([1, 1, 2, 3, 4])
    done = []
    for _ in range(n):
        s = d.pick(steps)
        e = d.cells(120)
        p = w.ppc
        num = [int(r[0]) for r in p['bus']]
        if s == 'renumber':
            m = e.pick(['perm', 'gaps', 'big', 'seq'])
            if m == 'perm':
                new = [num[i] for i in e.perm(len(num))]
            elif m == 'seq':
                new = list(range(1, len(num) + 1))
            else:
                new = list(np.cumsum([e.i_(1, 15 if m == 'gaps' else 4000) for _ in num]))
                new = [int(new[i]) for i in e.perm(len(num))]
            w.renumber(dict(zip(num, new)))
        elif s in ('buses', 'gens', 'branches'):
            t = {'buses': 'bus', 'gens': 'gen', 'branches': 'branch'}[s]
            k = len(p[t])
            w.reorder(t, list(range(k))[::-1] if e.chance(.3) else e.perm(k))
        elif s == 'flip':
            for i, r in enumerate(p['branch']):
                if r[8] in (0, 1) and r[9] == 0 and e.chance(.6):
                    r[0], r[1] = r[1], r[0]
                    r[11], r[12] = -r[12], -r[11]
                    if w.branch[i] is not None:
                        w.flip ^= {w.branch[i]}
        elif s == 'ratio':          # a ratio of 1 is no ratio
            for r in p['branch']:
                if r[8] in (0, 1) and e.chance(.6):
                    r[8] = 1.0 - r[8]
        elif s == 'addbranch':
            for _ in range(e.i_(1, 2)):
                f, t = e.pick(num), e.pick(num)
                w.add_branch(e.i_(0, len(p['branch'])), [f, t, e.f(0, .05), e.f(.02, .2), e.f(0, .2), e.f(0, 20, 1), 0., 0., e.pick([0., .95]), e.pick([0., 5.]), 0, -3., 4.])
        elif s == 'addgen':
            for _ in range(e.i_(1, 2)):
                r = [e.pick(num), e.c(-80, 150, 2), e.c(-40, 40, 2), 50., -50., e.f(.9, 1.1), 100., e.pick([0, 0, -1]), 200., e.pick([0., 30., -20.])] + [0.0] * 11
                w.add_gen(e.i_(0, len(p['gen'])), r, e.pick([[2, 100., 20., 3, .01, 12., 30.], [1, 10., 0., 2, 0., 0., 100., 2000.], [2, 0, 0, 1, 55.]]))
        elif s == 'addbus':
            nb = max(num) + e.i_(1, 30)
            w.add_bus(e.i_(0, len(p['bus'])), [nb, 4, e.f(0, 90, 1), e.f(0, 50, 1), e.f(0, 9, 1), e.c(-9, 9, 1), 1, e.f(.9, 1.1), e.c(-40, 40), 135., 1, 1.1, .9])
            for _ in range(e.i_(0, 2)):
                o = e.pick(num)
                ft = (nb, o) if e.b() else (o, nb)
                w.add_branch(e.i_(0, len(p['branch'])), list(ft) + [.01, e.f(.05, .3), .02, e.pick([0., 15.]), 0., 0., 0., 0., 1, -360., 360.])
            if e.chance(.5):
                w.add_gen(e.i_(0, len(p['gen'])), [nb, e.f(0, 90, 1), 5., 50., -50., 1.02, 100., 1, 200., e.pick([0., 10.])] + [0.0] * 11, [2, 0, 0, 3, .01, 12., 30.])
        elif s == 'delete':
            L = ref.Live(p)
            gone = {int(L.bus[k, 0]) for k in range(len(L.bus)) if k not in L.rows and e.chance(.7)}
            w.drop_gens([k for k in L.gout if int(L.gen[k, 0]) in gone or e.chance(.6)])
            w.drop_branches([k for k in L.brout if int(L.branch[k, 0]) in gone or int(L.branch[k, 1]) in gone or e.chance(.6)])
            w.reorder('bus', [i for i, b in enumerate(num) if b not in gone])
            if 'areas' in p:
                p['areas'] = [r for r in p['areas'] if r[1] not in gone]
        elif s == 'columns':
            for t, c in (('branch', 17), ('branch', 21), ('bus', 17), ('gen', 25)):
                if p[t] and len(p[t][0]) < c and e.chance(.5):
                    p[t] = [r + [e.c(-9, 9)] * (c - len(r)) for r in p[t]]
        elif s == 'negstatus':      # any status that is not positive
            for r in p['gen']:
                if r[7] <= 0 and e.chance(.6):
                    r[7] = e.pick([0, -1])
        done.append(s)
        for t in ('branch', 'bus', 'gen'):      # rows added after columns
            k = max([len(r) for r in p[t]] or [0])
            p[t] = [list(r) + [0.0] * (k - len(r)) for r in p[t]]
    return w, done
