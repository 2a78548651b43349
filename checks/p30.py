"""P30  Inconsistent data and unknown requests are reported, consistent ones pass in silence."""
import os
import sys
import tempfile
import types
import warnings
import numpy as np
from scipy.sparse import csr_matrix
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, dcopf
from vlib.util import opts, snapshot, same

ID = 'P30'
RULE = ('random tables, models and options, each either consistent or with one inconsistency put in at a random place; everything written to '
        'standard error and every exception is observed. Oracle: the inconsistency put in is named (a message or exception that mentions it), and '
        'consistent data cause neither. Non-trivial: an inconsistency was put in')

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def said(fn):
    """(result, exception, everything written to standard error, warnings)"""
    sys.stderr.flush()
    keep = os.dup(2)
    with tempfile.TemporaryFile() as t:
        os.dup2(t.fileno(), 2)
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                with np.errstate(all='ignore'):
                    res, exc = None, None
                    try:
                        res = fn()
                    except Exception as e:
                        exc = e
                    except SystemExit as e:
                        exc = e
        finally:
            sys.stderr.flush()
            os.dup2(keep, 2)
            os.close(keep)
        t.seek(0)
        text = t.read().decode(errors='replace')
    return res, exc, text, ' '.join(str(x.message) for x in w if x.category is UserWarning)


def verdict(spec, bad, words, fn, ok_exc=()):
    """bad: the inconsistency that was put in (or None); words: what a report of it must mention (one of them)"""
    res, exc, text, warned = said(fn)
    if bad:
        heard = (text + ' ' + warned + ' ' + (str(exc) if exc is not None else '')).lower()
        expect(any(w.lower() in heard for w in words), 'not-reported:' + spec['kind'],
               lambda: '%s: %s is not reported (exception %r, standard error %r)' % (spec['kind'], bad, exc, text[:200]))
    else:
        if exc is not None and not isinstance(exc, ok_exc):
            raise Violation('rejected:' + spec['kind'], '%s: consistent data are rejected: %r' % (spec['kind'], exc)) from exc
        expect(not text.strip(), 'complaint:' + spec['kind'], lambda: '%s: consistent data cause the complaint %r' % (spec['kind'], text[:300]))
    return res


# ------------------------------------------------------------------ tables

def unit(e, b):
    return [float(b), 10.0, 0.0, 50.0, -50.0, 1.0, 100.0, 1.0, 90.0, 0.0] + [0.0] * 11


@kind
def curve(d, s, run):
    """Capability curve data must widen towards low output."""
    if not run:
        n = d.i(1, 4)
        e = d.cells(20 * n + 6)
        rows = []
        for k in range(n):
            r = unit(e, k + 1)
            if e.chance(.7):
                p1 = e.f(0, 40, 1)
                r[10], r[11] = p1, p1 + e.f(0, 50, 1)
                r[13], r[12] = e.f(5, 60, 1), -e.f(5, 60, 1)
                r[15], r[14] = round(r[13] * e.f(0, 1, 2), 2), round(r[12] * e.f(0, 1, 2), 2)
            rows.append(r)
        s['bad'] = bad = e.pick([None, None, 'Pc1 > Pc2', 'Qc2max > Qc1max', 'Qc2min < Qc1min'])
        r = rows[e.i_(0, n - 1)]
        x = e.f(.1, 20, 1)
        if bad == 'Pc1 > Pc2':
            r[10] = r[11] + x
        elif bad == 'Qc2max > Qc1max':
            r[15] = r[13] + x
        elif bad:
            r[14] = r[12] - x
        s['gen'], s['hilo'] = rows, e.pick(['B', 'U', 'L'])
        return
    from pypower.hasPQcap import hasPQcap
    from pypower.makeApq import makeApq
    bad = s['bad']
    fn = (lambda: hasPQcap(np.array(s['gen']), s['hilo'])) if s['hilo'] != 'B' else (lambda: makeApq(100.0, np.array(s['gen'])))
    verdict(s, bad, [bad] if bad else [], fn)


@kind
def loadpf(d, s, run):
    """A dispatchable load has one reactive limit, and output in proportion."""
    if not run:
        n = d.i(1, 4)
        e = d.cells(20 * n + 6)
        rows, ld = [], []
        for k in range(n):
            r = unit(e, k + 1)
            if e.chance(.7) or k == 0:
                r[9], r[8] = -e.f(5, 80, 1), 0.0
                q = e.pick([0.0, 1.0, -1.0]) * e.f(2, 40, 1)
                r[3], r[4] = max(q, 0.0), min(q, 0.0)
                t = e.f(.2, 1, 2)
                r[1], r[2] = r[9] * t, q * t
                ld.append(k)
            rows.append(r)
        bad = e.pick([None, None, 'zero', 'consistent'])
        r = rows[e.pick(ld)]
        if bad == 'zero':
            r[3], r[4] = e.f(1, 20, 1), -e.f(1, 20, 1)
        elif bad:
            if r[3] == 0 and r[4] == 0:
                r[4] = -e.f(2, 40, 1)
            r[2] += e.pick([1, -1]) * e.f(.01, 10, 2)
            q = r[3] + r[4]
            if abs(r[2] - r[1] * q / r[9]) < 1e-3:
                r[2] += 1
        s['bad'], s['gen'] = bad, rows
        return
    from pypower.makeAvl import makeAvl
    verdict(s, s['bad'], [s['bad'] or ''], lambda: makeAvl(100.0, np.array(s['gen'])))


@kind
def busorder(d, s, run):
    """Matrix builders want buses numbered by row."""
    if not run:
        net = gen.draw_net(d, nb_max=6, nb_min=3)
        s['net'], s['fn'] = net, d.pick(['makeYbus', 'makeBdc', 'makePTDF'])
        s['bad'] = 'buses out of order' if d.chance(.6) else None
        s['swap'] = [d.i(0, 2), d.i(1, 2)]
        return
    from pypower.makeYbus import makeYbus
    from pypower.makeBdc import makeBdc
    from pypower.makePTDF import makePTDF
    base, bus, g, br, L = gen.internal(s['net']['ppc'])
    if len(bus) < 3 or not len(br):
        s['bad'] = None
        return
    if s['bad']:
        i, j = s['swap'][0], (s['swap'][0] + s['swap'][1]) % 3
        bus[[i, j]] = bus[[j, i]]
    fn = {'makeYbus': makeYbus, 'makeBdc': makeBdc, 'makePTDF': makePTDF}[s['fn']]
    if fn is makePTDF and 'multiref' in s['net']['feats']:
        fn = makeBdc
    verdict(s, s['bad'], ['order', 'consecutive'], lambda: fn(base, bus, br), ok_exc=np.linalg.LinAlgError)


@kind
def bustype(d, s, run):
    """Bus types other than 1-4 are named."""
    if not run:
        net = gen.draw_net(d, nb_max=7)
        s['net'] = net
        n = len(net['ppc']['bus'])
        s['rows'] = sorted(set(d.i(0, n - 1) for _ in range(d.i(1, 3)))) if d.chance(.6) else []
        s['val'] = d.pick([0, 5, 7, -1, 33])
        s['bad'] = 'a bus type of %d' % s['val'] if s['rows'] else None
        return
    from pypower.ext2int import ext2int
    c = gen.arr(s['net']['ppc'])
    for i in s['rows']:
        c['bus'][i, 1] = s['val']
    verdict(s, s['bad'], ['BUS_TYPE', 'bus type'], lambda: ext2int(c))


@kind
def costs(d, s, run):
    """Requests to the cost functions."""
    if not run:
        ng = d.i(1, 4)
        e = d.cells(20 * ng + 10)
        rows = [[2, 0, 0, 3, e.f(0, .1, 3), e.f(0, 40, 1), e.f(0, 99, 0)] for _ in range(ng)]
        s['what'] = w = e.pick(['modtype', 'pwl', 'rows', 'rows'])
        s['bad'] = bad = w if e.chance(.6) else None
        s['mod'] = e.pick(['SCALE', 'SCALEF', 'scale_f', 'SHIFT', 'SHIFT_Y', 'SHIFT_P', '']) if bad else e.pick(['SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X'])
        if w == 'pwl' and bad:
            rows[e.i_(0, ng - 1)] = [1, 0, 0, 2, 0, 0, 10.0, 99.0]
            rows = [r + [0.0] * (8 - len(r)) for r in rows]
        s['n'] = ng
        if w == 'rows':
            m = e.pick([ng, 2 * ng]) if not bad else e.pick([k for k in (ng + 1, 2 * ng + 1, 2 * ng - 1, 3 * ng, ng - 1) if k not in (ng, 2 * ng) and k > 0])
            rows = [rows[k % ng] for k in range(m)]
        s['rows'] = rows
        return
    from pypower.modcost import modcost
    from pypower.polycost import polycost
    from pypower.pqcost import pqcost
    gc = np.array(s['rows'], float)
    if s['what'] == 'modtype':
        return verdict(s, s['bad'], ['modtype', 'valid'], lambda: modcost(gc, 2.0, s['mod']))
    if s['what'] == 'pwl':
        return verdict(s, s['bad'], ['polynomial'], lambda: polycost(gc, np.ones(len(gc))))
    verdict(s, s['bad'], ['rows', 'number'], lambda: pqcost(gc, s['n']))


@kind
def loads(d, s, run):
    """Requests to total_load and scale_load."""
    if not run:
        net = gen.draw_net(d, nb_max=6)
        for k in range(d.i(1, 2)):
            b = net['ppc']['bus'][d.i(0, len(net['ppc']['bus']) - 1)][0]
            net['ppc']['gen'].append([b, -5.0, -1.0, 0.0, -2.0, 1.0, 100.0, 1, 0.0, -10.0] + [0.0] * 11)
        s['net'] = net
        s['what'] = w = d.pick(['pq', 'which', 'scale', 'zones', 'total'])
        s['bad'] = w if d.chance(.6) else None
        s['val'] = d.i(0, 2)
        return
    from pypower.scale_load import scale_load
    from pypower.total_load import total_load
    c = gen.arr(s['net']['ppc'])
    bad, w, v = s['bad'], s['what'], s['val']
    nb = len(c['bus'])
    o, load, g, z = {}, np.array([1.5]), c['gen'], np.ones(nb, int)
    if w == 'pq':
        o['pq'] = ['Q', 'QP', 'pq'][v] if bad else ['P', 'PQ', 'PQ'][v]
    elif w == 'which':
        o['which'] = ['ALL', 'NONE', 'both'][v] if bad else ['BOTH', 'FIXED', 'DISPATCHABLE'][v]
    elif w == 'scale':
        o['scale'] = ['PERCENT', 'factor', 'ADD'][v] if bad else ['FACTOR', 'FACTOR', 'QUANTITY'][v]
        if o['scale'] == 'QUANTITY':
            load = np.array([100.0])
    elif w == 'zones':
        z[v % nb] = 2 + v
        load = np.array([1.5] * (z.max() - (1 if bad else 0)))
    if w == 'total':
        t = ['ALL', 'NONE', 'both'][v] if bad else ['BOTH', 'FIXED', 'DISPATCHABLE'][v]
        return verdict(s, bad, ['which'], lambda: total_load(c['bus'], c['gen'], z, t))
    from pypower.scale_load import ScalingError
    words = {'pq': ['pq'], 'which': ['which'], 'scale': ['opt.scale', "opt['scale']"], 'zones': ['zone']}[w]
    verdict(s, bad, words, lambda: scale_load(load, c['bus'], g, z, o), ok_exc=() if w != 'scale' else ScalingError)


@kind
def stages(d, s, run):
    """Callbacks are registered for known stages, once."""
    if not run:
        s['stage'] = d.pick(['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase'])
        s['what'] = d.pick(['stage', 'twice'])
        s['bad'] = s['what'] if d.chance(.6) else None
        s['name'] = d.pick(['opf', 'Formulation', 'int', 'ext2int2', ''])
        s['multi'] = d.b()
        return
    from pypower.add_userfcn import add_userfcn
    from pypower.case9 import case9

    def f(*a):
        return a[0]

    def g(*a):
        return a[0]
    c = case9()
    if s['what'] == 'stage':
        return verdict(s, s['bad'], ['stage'], lambda: add_userfcn(c, s['name'] if s['bad'] else s['stage'], f))
    c = add_userfcn(c, s['stage'], f)
    if s['bad']:
        return verdict(s, s['bad'], ['already'], lambda: add_userfcn(c, s['stage'], f))
    verdict(s, None, [], (lambda: add_userfcn(c, s['stage'], f, allow_multiple=True)) if s['multi'] else (lambda: add_userfcn(c, s['stage'], g)))


@kind
def dims(d, s, run):
    """Rows and columns are the only dimensions."""
    if not run:
        s['what'] = d.pick(['get', 'set', 'e2i', 'get3', 'set3'])
        s['bad'] = s['what'] if d.chance(.6) else None
        s['dim'] = d.i(2, 4) if s['bad'] else d.i(0, 1)
        return
    from pypower.get_reorder import get_reorder
    from pypower.set_reorder import set_reorder
    from pypower.e2i_data import e2i_data
    from pypower.ext2int import ext2int
    from pypower.case9 import case9
    w, bad = s['what'], s['bad']
    A, i = np.arange(9.0).reshape(3, 3), np.array([2, 0, 1])
    if w in ('get3', 'set3'):
        A = np.arange(27.0).reshape(3, 3, 3) if bad else A
        dim = s['dim'] % 2
    else:
        dim = s['dim']
    if w[:3] == 'get':
        fn = lambda: get_reorder(A, i, dim)
    elif w[:3] == 'set':
        fn = lambda: set_reorder(A.copy(), A.copy(), i, dim)
    else:
        c = ext2int(case9())
        fn = lambda: e2i_data(c, np.ones((3, 3)), 'gen', dim)
    verdict(s, bad, ['dim'], fn)


@kind
def order(d, s, run):
    """Conversions need a case in the right numbering."""
    if not run:
        s['net'] = gen.draw_net(d, nb_max=6)
        s['what'] = d.pick(['e2i_data', 'i2e_data', 'int2ext', 'int2ext'])
        s['bad'] = d.pick([None, None, 'no order', 'wrong state', 'wrong state'])
        return
    from pypower.e2i_data import e2i_data
    from pypower.i2e_data import i2e_data
    from pypower.ext2int import ext2int
    from pypower.int2ext import int2ext
    c = gen.arr(s['net']['ppc'])
    i = ext2int(c)
    bad, w = s['bad'], s['what']
    x = i
    if bad == 'no order':
        x = c
    elif bad:
        x = int2ext(i)
    if w == 'e2i_data':
        fn = lambda: e2i_data(x, np.ones(len(c['bus'])), 'bus')
    elif w == 'i2e_data':
        fn = lambda: i2e_data(x, np.ones(len(i['bus'])), np.zeros(len(c['bus'])), 'bus')
    else:
        fn = lambda: int2ext(x)
    verdict(s, bad, ['order', 'numbering'], fn)


@kind
def switches(d, s, run):
    """Switching extensions on needs their data."""
    if not run:
        s['what'] = w = d.pick(['reserves', 'if', 'dcline'])
        s['bad'] = d.pick([None, 'word', 'missing', 'incomplete', 'incomplete'])
        s['v'] = d.i(0, 2)
        s['word'] = d.pick(['ON', 'yes', '1', 'Off', ''])
        return
    from pypower.toggle_reserves import toggle_reserves
    from pypower.toggle_iflims import toggle_iflims
    from pypower.toggle_dcline import toggle_dcline
    from pypower.case9 import case9
    c, w, bad, v = case9(), s['what'], s['bad'], s['v']
    if bad != 'missing':
        c['reserves'] = {'zones': np.ones((1, 3)), 'req': np.array([10.0]), 'cost': np.ones(3)}
        c['if'] = {'map': np.array([[1, 1, 1.0]]), 'lims': np.array([[1, -9, 9.0]])}
        c['dcline'] = np.zeros((2, 17))
        c['dcline'][:, 0], c['dcline'][:, 1], c['dcline'][:, 2] = [4, 5], [5, 6], 1
        c['dclinecost'] = np.array([[2, 0, 0, 2, 1.0, 0], [2, 0, 0, 2, 2.0, 0]])
        if bad == 'incomplete':
            if w == 'dcline':
                if v:
                    c['dclinecost'] = c['dclinecost'][:1] if v == 1 else np.vstack([c['dclinecost']] * 2)
                else:
                    c['dcline'] = c['dcline'][:, :16]
            elif w == 'if':
                if v == 2:
                    c['if'] = [1, 2]
                else:
                    del c['if'][['map', 'lims'][v]]
            else:
                del c['reserves'][['zones', 'req', 'cost'][v]]
    fn = {'reserves': toggle_reserves, 'if': toggle_iflims, 'dcline': toggle_dcline}[w]
    word = s['word'] if bad == 'word' else 'on'
    if bad == 'word':
        words = ['2nd argument', 'either']
    else:
        words = {'reserves': ["'reserves' field", 'struct'], 'if': ["'if' field", 'struct'], 'dcline': ["field"]}[w]
    verdict(s, bad, words, lambda: fn(c, word))


@kind
def savegc(d, s, run):
    """A cost table narrower than it says cannot be saved unnoticed."""
    if not run:
        n = d.i(2, 5)
        s['ncost'], s['pwl'] = n, d.chance(.3)
        s['bad'] = 'too few columns' if d.chance(.6) else None
        s['cut'] = d.i(1, 2)
        return
    from pypower.savecase import savecase
    from pypower.case9 import case9
    c = case9()
    n = s['ncost']
    w = 2 * n if s['pwl'] else n
    gc = np.zeros((3, 4 + w))
    gc[:, 0], gc[:, 3] = (1 if s['pwl'] else 2), n
    gc[:, 4:] = np.arange(1, w + 1)
    if s['bad']:
        gc = gc[:, :-s['cut']]
    c['gencost'] = gc
    with tempfile.TemporaryDirectory(prefix='verif-p30-') as t:
        verdict(s, s['bad'], ['columns'], lambda: savecase(os.path.join(t, 'c.py'), c))


# ------------------------------------------------------------------ the OPF model

@kind
def model(d, s, run):
    if not run:
        nv = [d.i(1, 3) for _ in range(d.i(1, 3))]
        s['nv'] = nv
        s['what'] = d.pick(['var', 'nln', 'lin', 'cost', 'lu', 'lu', 'cols', 'cols', 'Ncols', 'Ncols', 'Cw', 'H', 'H', 'dd', 'rh', 'kk', 'mm', 'build'])
        s['bad'] = s['what'] if d.chance(.6) else None
        s['off'] = d.pick([1, -1, 2])
        s['side'] = d.i(0, 1)
        s['sub'] = [k for k in range(len(nv)) if d.b()]
        s['m'] = d.i(1, 3)
        return
    from pypower.opf_model import opf_model
    bad, w = s['bad'], s['what']
    om = opf_model({})
    for k, n in enumerate(s['nv']):
        om.add_vars('v%d' % k, n)
    vs = ['v%d' % k for k in s['sub']]
    n = sum(s['nv'][k] for k in s['sub']) if vs else sum(s['nv'])
    m = s['m']
    off = lambda x: max(x + s['off'], 0) if max(x + s['off'], 0) != x else x + 1
    A = csr_matrix(np.ones((m, n)))
    if w == 'var':
        return verdict(s, bad, ['already'], lambda: om.add_vars('v0' if bad else 'w', 1))
    if w == 'nln':
        om.add_constraints('n', 2, 'nonlinear')
        return verdict(s, bad, ['already'], lambda: om.add_constraints('n' if bad else 'n2', 1, 'nonlinear'))
    if w in ('lin', 'lu', 'cols'):
        if w == 'lin':
            om.add_constraints('a', A, np.zeros(m), np.ones(m), vs)
        l, u = np.zeros(m), np.ones(m)
        if bad == 'lu':
            k = off(m) or m + 1
            if s['side']:
                l = np.zeros(k)
            else:
                u = np.ones(k)
        if bad == 'cols':
            A = csr_matrix(np.ones((m, off(n) or n + 1)))
        words = {'lin': ['already'], 'lu': ['sizes'], 'cols': ['columns']}[w]
        return verdict(s, bad, words, lambda: om.add_constraints('a' if bad == 'lin' or w != 'lin' else 'b', A, l, u, vs))
    cp = {'N': csr_matrix(np.ones((m, n))), 'Cw': np.ones(m), 'H': csr_matrix((m, m)), 'dd': np.ones(m), 'rh': np.zeros(m), 'kk': np.zeros(m), 'mm': np.ones(m)}
    if w == 'cost':
        om.add_costs('c', dict(cp), vs)
        return verdict(s, bad, ['already'], lambda: om.add_costs('c' if bad else 'e', dict(cp), vs))
    if w == 'build':
        om.add_costs('c', dict(cp), vs)
        if not bad:
            om.build_cost_params()
        return verdict(s, bad, ['build_cost_params'], lambda: om.get_cost_params())
    if bad == 'Ncols':
        cp['N'] = csr_matrix(np.ones((m, off(n) or n + 1)))
    elif bad == 'H':
        sh = [m, m]
        sh[s['side']] = off(m) or m + 1
        cp['H'] = csr_matrix(tuple(sh))
    elif bad:
        cp[bad] = np.ones(off(m) or m + 1)
    words = {'Ncols': ['columns in N']}.get(w, ['of %s' % w])
    verdict(s, bad, words, lambda: om.add_costs('c', cp, vs))


# ------------------------------------------------------------------ requests to the solvers

@kind
def userdata(d, s, run):
    """User matrices of an OPF must fit together."""
    if not run:
        net = gen.draw_net(d, nb_max=4, features=())
        acopf.add_opf(d, net, disp=0.0, rates=0.0, angle=0.0, qcost=0.0, quad_only=True)
        s['net'] = net
        s['what'] = d.pick(['Cw', 'fparm', 'H', 'H', 'A-N', 'denseN', 'denseH', 'denseA', 'few', 'fewN', 'dcA', 'dcN'])
        s['bad'] = s['what'] if d.chance(.6) else None
        s['nw'], s['off'], s['side'] = d.i(1, 3), d.pick([1, -1, 2]), d.i(0, 1)
        s['j'] = d.i(0, 50)
        s['via'] = d.pick(['fields', 'args'])
        return
    from pypower.runopf import runopf
    from pypower.rundcopf import rundcopf
    from pypower.opf import opf
    bad, w, nw = s['bad'], s['what'], s['nw']
    c = gen.arr(s['net']['ppc'])
    L = ref.Live(s['net']['ppc'])
    nb, ng = L.n, len(L.g)
    if len(c['gen']) != ng or len(c['bus']) != nb:
        s['bad'] = None
        return
    nx = 2 * nb + 2 * ng
    dc = w in ('dcA', 'dcN')
    A, l, u = np.zeros((1, nx)), np.array([-1e4]), np.array([1e4])
    A[0, 2 * nb] = 1.0
    N, Cw = np.zeros((nw, nx)), np.ones(nw)
    N[:, 2 * nb + ng - 1] = 1.0
    fparm = np.tile([1.0, 0, 0, 1.0], (nw, 1))
    H = np.eye(nw) * .5
    sp = csr_matrix
    off = nw + s['off'] or nw + 1
    if bad == 'Cw':
        Cw = np.ones(off)
    elif bad == 'fparm':
        fparm = np.tile([1.0, 0, 0, 1.0], (off, 1))
    elif bad == 'H':
        sh = [nw, nw]
        sh[s['side']] = off
        H = np.zeros(sh)
    elif bad == 'A-N':
        A = np.hstack([A, np.zeros((1, 1))])
    elif bad == 'few':
        A, N = A[:, :nx - 1], N[:, :nx - 1]
    elif bad == 'fewN':
        N = N[:, :nx - 1]
    hot = [nb + s['j'] % nb, 2 * nb + ng + s['j'] % ng][s['side']]
    if bad == 'dcA':
        A[0, hot] = 1.0
    elif bad == 'dcN':
        N[0, hot] = 1.0
    words = {'Cw': ['N and Cw'], 'fparm': ['N and fparm'], 'H': ['N and H'], 'A-N': ['A and N', 'same number'], 'denseN': ['N must be sparse'],
             'denseH': ['H must be sparse'], 'denseA': ['Au must be sparse', 'A must be sparse'], 'few': ['columns'], 'fewN': ['columns'],
             'dcA': ['Vm or Qg'], 'dcN': ['Vm or Qg']}[w]
    f = {'N': N if bad == 'denseN' else sp(N), 'Cw': Cw, 'fparm': fparm, 'H': H if bad == 'denseH' else sp(H)}
    if w not in ('fewN',):
        f.update(A=A if bad == 'denseA' else sp(A), l=l, u=u)
    o = opts()
    if s['via'] == 'fields' or 'A' not in f:
        c.update(f)
        fn = lambda: (rundcopf if dc else runopf)(c, o)
    else:
        o['PF_DC'] = dc
        fn = lambda: opf(c, f['A'], f['l'], f['u'], o, f['N'], f['fparm'], f['H'], f['Cw'])
    verdict(s, bad, words, fn)


@kind
def algorithms(d, s, run):
    """Unknown algorithm codes are refused."""
    if not run:
        net = gen.draw_net(d, nb_max=4, features=())
        acopf.add_opf(d, net, disp=0.0, rates=0.0, angle=0.0, qcost=0.0, quad_only=True)
        s['net'] = net
        s['what'] = w = d.pick(['pf', 'ac', 'dc', 'qps', 'model', 'cubic', 'dense', 'nargs'])
        s['bad'] = w if d.chance(.6) else None
        s['v'] = d.i(0, 3)
        s['k'] = d.i(0, 9)
        return
    from pypower.runpf import runpf
    from pypower.runopf import runopf
    from pypower.rundcopf import rundcopf
    from pypower.opf import opf
    from pypower.qps_pypower import qps_pypower
    from pypower.pplinsolve import pplinsolve
    bad, w, v = s['bad'], s['what'], s['v']
    c = gen.arr(s['net']['ppc'])
    if w == 'pf':
        return verdict(s, bad, ['Newton', 'algorithm'], lambda: runpf(c, opts(PF_ALG=[0, 5, -1, 9][v] if bad else [1, 2, 3, 1][v])))
    if w == 'ac':
        return verdict(s, bad, ['algorithm code', 'valid'], lambda: runopf(c, opts(OPF_ALG=[100, 541, 561, 700][v] if bad else [0, 560, 565, 0][v])))
    if w == 'dc':
        return verdict(s, bad, ['solver', 'algorithm'], lambda: rundcopf(c, opts(OPF_ALG_DC=[150, 800, 1, 201][v] if bad else [0, 200, 250, 0][v])))
    if w == 'qps':
        H, q = csr_matrix(np.eye(2)), np.array([-1.0, -2.0])
        A, l, u = csr_matrix(np.ones((1, 2))), np.array([0.0]), np.array([1.0])
        x0 = np.zeros(2)
        return verdict(s, bad, ['algorithm code', 'valid'], lambda: qps_pypower(H, q, A, l, u, x0 - 5, x0 + 5, x0, {'alg': [1, 150, 800, 201][v] if bad else [0, 200, 250, 200][v]}))
    k = s['k'] % len(c['gencost'])
    if w == 'model':
        if bad:
            c['gencost'][k, 0] = [0, 3, 5, -1][v]
        return verdict(s, bad, ['MODEL'], lambda: runopf(c, opts()))
    if w == 'cubic':
        gc = np.zeros((len(c['gencost']), max(8, c['gencost'].shape[1])))
        gc[:, :c['gencost'].shape[1]] = c['gencost']
        if bad:
            on = [i for i in range(len(c['gen'])) if c['gen'][i, 7] > 0]
            gc[on[s['k'] % len(on)], :8] = [2, 0, 0, 4, 1e-4, .01, 10, 0]
        c['gencost'] = gc
        return verdict(s, bad, ['quadratic', 'higher'], lambda: rundcopf(c, opts()))
    if w == 'dense':
        M = np.eye(3) * 2
        return verdict(s, bad, ['CSC', 'CSR'], lambda: pplinsolve(M if bad else csr_matrix(M), np.ones(3), 'pyrlu'))
    args = [c['baseMVA'], c['bus'], c['gen'], c['branch'], np.zeros((0, 2)), c['gencost'], opts()]
    if bad:
        args = args[:3 + v % 3] if v < 3 else args + [None] * 4
    return verdict(s, bad, ['arg'], lambda: opf(*args))


@kind
def zones(d, s, run):
    """Reserve data must have a row for each unit and zone; interfaces need a branch."""
    if not run:
        net = gen.draw_net(d, nb_max=4, features=())
        dcopf.add_dcopf(d, net, disp=0.0, rates=0.0)
        s['net'] = net
        s['what'] = d.pick(['req', 'cost', 'qty', 'if'])
        s['bad'] = s['what'] if d.chance(.6) else None
        s['v'] = d.i(0, 3)
        s['on'] = d.b()
        return
    from pypower.runopf_w_res import runopf_w_res
    from pypower.toggle_iflims import toggle_iflims
    from pypower.rundcopf import rundcopf
    c = gen.arr(s['net']['ppc'])
    bad, w, v = s['bad'], s['what'], s['v']
    ng = len(c['gen'])
    if w == 'if':
        if len(c['branch']) < 2:
            s['bad'] = None
            return
        c['if'] = {'map': np.array([[1.0, 1.0], [2.0, -1.0]]), 'lims': np.array([[1, -1e4, 1e4], [2, -1e4, 1e4]])}
        if bad:
            if s['on']:
                c['branch'][1, 10] = 0      # the only branch is out of service
                if len(c['branch']) < 2:
                    s['bad'] = None
                    return
            else:
                c['if']['lims'][1, 0] = 7
        c = toggle_iflims(c, 'on')
        return verdict(s, bad, ['no in-service'], lambda: rundcopf(c, opts()))
    z = np.ones((2, ng)) if w == 'req' else np.ones((1, ng))
    r = {'zones': z, 'req': np.zeros(len(z)), 'cost': np.ones(ng)}
    if s['on'] or w == 'qty':
        r['qty'] = np.full(ng, 5.0)
    if bad == 'req':
        r['req'] = np.zeros([1, 3, 4, 1][v])
    elif bad == 'cost':
        r['cost'] = np.ones([ng + 1, ng + 2, max(ng - 1, 1) if ng > 1 else 3, ng + 3][v])
        if 'qty' in r:
            r['qty'] = np.ones(len(r['cost']))
    elif bad == 'qty':
        r['qty'] = np.full([ng + 1, ng + 2, ng - 1, ng + 1][v] or 2, 5.0)
    c['reserves'] = r
    words = {'req': ["'req'", 'rows'], 'cost': ["'cost'", 'rows'], 'qty': ["'qty'", 'dimension']}[w]
    verdict(s, bad, words, lambda: runopf_w_res(c, opts(PF_DC=True)))


@kind
def plotbus(d, s, run):
    """CPF_PLOT_BUS names a bus of the case."""
    if not run:
        net = gen.draw_net(d, nb_max=5)
        s['net'] = net
        s['bad'] = 'an unknown bus' if d.chance(.5) else None
        s['k'] = d.i(0, 20)
        return
    from pypower.runcpf import runcpf
    import contextlib
    import io
    c = gen.arr(s['net']['ppc'])
    L = ref.Live(s['net']['ppc'])
    known = [int(L.bus[r, 0]) for r in L.rows]
    if s['bad']:
        b = [max(known) + 1, max(known) + 100, next(x for x in range(1, 10000) if x not in known)][s['k'] % 3]
        if b in known:
            s['bad'] = None
            return
    else:
        b = known[s['k'] % len(known)]
    t = gen.arr(s['net']['ppc'])
    t['bus'][:, 2] *= 1.1
    t['bus'][:, 2] += 1.0
    o = opts(CPF_PLOT_BUS=b, CPF_STOP_AT=.05, CPF_STEP=.02, CPF_PLOT_LEVEL=1)
    drawn = []

    class Plot(types.ModuleType):           # (a stand-in: nothing is drawn)
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return lambda *a, **k: drawn.append((name, a))
    m = types.ModuleType('matplotlib')
    m.pyplot = Plot('matplotlib.pyplot')
    old = {k: sys.modules.get(k) for k in ('matplotlib', 'matplotlib.pyplot')}
    sys.modules.update({'matplotlib': m, 'matplotlib.pyplot': m.pyplot})

    def fn():
        with contextlib.redirect_stdout(io.StringIO()):
            return runcpf(c, t, o)
    try:
        verdict(s, s['bad'], ['not a valid bus'], fn)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if not s['bad']:
        expect(('title', ('Voltage at Bus %d' % b,)) in drawn, 'plot', 'the curve of bus %d is not drawn: %s' % (b, [x for x in drawn if x[0] == 'title']))
        # the curve drawn last is that of the bus asked for
        res, ok = runcpf(c, t, opts(CPF_STOP_AT=.05, CPF_STEP=.02))
        row = [int(x) for x in c['bus'][:, 0]].index(b)
        xy = [x[1] for x in drawn if x[0] == 'plot'][-1]
        if ok:
            expect(np.allclose(np.ravel(xy[0]), np.ravel(res['cpf']['lam_c']), atol=1e-9) and np.allclose(np.ravel(xy[1]), np.abs(res['cpf']['V_c'][row]), atol=1e-9), 'plot', 'another curve than that of bus %d is drawn' % b)


def make(d, names):
    s = {'kind': d.pick(names), 'bad': None}
    KINDS[s['kind']](d, s, False)
    return s


def check(s):
    s = dict(s)
    KINDS[s['kind']](None, s, True)
    return [s['kind'] + ('/' + str(s['what']) if 'what' in s else '')] + (['reported', 'nontrivial'] if s['bad'] else ['silent'])


A = ['curve', 'loadpf', 'busorder', 'bustype', 'costs', 'costs', 'loads', 'loads', 'stages', 'dims', 'order', 'switches', 'switches', 'savegc', 'model', 'model', 'model']
B = ['userdata', 'userdata', 'algorithms', 'algorithms', 'zones', 'plotbus']
SUBS = [Sub('tables', gen.spec_strategy(make, A), check, 2400, 40000),
        Sub('solvers', gen.spec_strategy(make, B), check, 640, 10000)]
