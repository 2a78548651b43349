"""P22  A continuation power flow traces true solutions from the base case towards the target."""
import io
import contextlib
import math
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref
from vlib.util import opts, close, same, snapshot, base_labels, printed, saved, wrapdeg

ID = 'P22'
RULE = ('random networks with a random transfer (loads scaled or shifted, dispatch changed), all three parameterisations, fixed and adaptive steps, stopping at the nose, '
        'after the full curve or at a given loading, plus two-bus systems with a closed-form nose; every point is observed by a user callback and in the results. '
        'Oracle: independent network equations, an independent power flow at the final loading, the closed-form curve. '
        'Non-trivial: at least three points traced')
D2R = math.pi / 180


class Enough(Exception):
    pass


def draw_target(d, ppc):
    """A target case: the same network with other loads and dispatch."""
    e = d.cells(6 * len(ppc['bus']) + 4 * len(ppc['gen']) + 10)
    t = {'version': '2', 'baseMVA': ppc['baseMVA'], 'bus': [list(r) for r in ppc['bus']], 'gen': [list(r) for r in ppc['gen']],
         'branch': [list(r) for r in ppc['branch']]}
    base = ppc['baseMVA']
    kind = e.pick(['scale', 'add', 'add', 'gen', 'mix', 'mix', 'back'])
    f = e.f(.3, 2)
    for r in t['bus']:
        if kind in ('scale', 'mix') and e.chance(.8):
            r[2] = round(r[2] + f * abs(r[2]), 4)
            r[3] = round(r[3] + f * abs(r[3]) * e.c(-.3, 1), 4)
        if kind in ('add', 'mix') and e.chance(.6):
            r[2] = round(r[2] + e.f(.1, 1) * base, 4)
            r[3] = round(r[3] + e.c(-.2, .5) * base, 4)
        if kind == 'back' and e.chance(.7):
            r[2] = round(r[2] - e.f(.1, 1) * base, 4)
    for r in t['gen']:
        if kind in ('gen', 'mix', 'back') and e.chance(.6):
            r[1] = round(r[1] + e.c(-.5, 1.2) * base, 4)
            if e.chance(.5):
                r[2] = round(r[2] + e.c(-.3, .5) * base, 4)
    for r in t['bus']:              # irrelevant: the target's own solution
        if e.chance(.2):
            r[7], r[8] = 1.0 + e.c(-.05, .05), e.c(-20, 20)
    return t


def sxfr(ppc, t):
    L, T = ref.Live(ppc), ref.Live(t)
    return L, T.sbus() - L.sbus()


def make(d, mode):
    net = gen.draw_net(d, nb_max=8, stress=.8)
    ppc = net['ppc']
    if d.chance(.12):           # the frame of reference is anywhere
        rot = d.pick([150., 170., 180., -175., 90.])
        for r in ppc['bus']:
            r[8] += rot
    t = draw_target(d, ppc)
    s = {'net': net, 'target': t, 'mode': mode, 'par': d.pick([3, 3, 2, 1]), 'adapt': d.chance(.3), 'etol': d.pick([1e-3, 1e-2, 1e-1]),
         'step': d.f(.03, .3), 'smin': d.pick([1e-4, 1e-4, .02, .05]), 'smax': d.pick([.2, .2, .1, .5, 1.0]), 'stop': 'NOSE', 'args': d.pick([0, 0, 7]),
         'file': d.chance(.1), 'cap': 120, 'tol': d.pick([1e-8, 1e-8, 1e-10]), 'noop': d.chance(.02)}
    if mode == 'trace':
        s['stop'] = d.pick(['NOSE', 'NOSE', 'FULL', 'full', 'nose'])
    else:
        s['stop'] = d.f(.02, 1.2) if d.chance(.8) else round(s['step'] * d.i(1, 6), 4)
    if s['noop']:
        s['target'] = ppc
    return s


def trace(s, base, target):
    """Run the continuation, observing every accepted point."""
    import pypower.cpf_callbacks as cb
    from pypower.runcpf import runcpf
    seen = []

    def watch(k, V_c, lam_c, V_p, lam_p, data, state, args, results=None, is_final=False):
        if is_final:
            seen.append('final')
            results['watched'] = [len(seen), args]
            return state, results
        seen.append((k, np.array(V_c).ravel().copy(), float(np.ravel(lam_c)[0]), np.array(V_p).ravel().copy(), float(np.ravel(lam_p)[0]), args))
        if k >= s['cap']:
            raise Enough()
        return state, results

    cb.verif_watch = watch
    o = opts(CPF_PARAMETERIZATION=s['par'], CPF_STOP_AT=s['stop'], CPF_STEP=s['step'], CPF_ADAPT_STEP=bool(s['adapt']), CPF_ERROR_TOL=s['etol'],
             CPF_STEP_MIN=s['smin'], CPF_STEP_MAX=s['smax'], CPF_USER_CALLBACK='verif_watch' if s['args'] else ['verif_watch'],
             CPF_USER_CALLBACK_ARGS=s['args'], PF_TOL=s['tol'], PF_MAX_IT=12)
    b, t, ob = snapshot(base), snapshot(target), dict(o)
    res, ok = None, None
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            res, ok = runcpf(base, target, o)
    except Enough:
        pass
    finally:
        del cb.verif_watch
    expect(same(b, base), 'input-modified', 'the base case passed in was modified')
    expect(same(t, target), 'input-modified', 'the target case passed in was modified')
    expect(same(ob, dict(o)), 'options-modified', 'the options passed in were modified')
    return res, ok, seen


def check(s):
    net, tppc = s['net'], s['target']
    ppc = net['ppc']
    L, X = sxfr(ppc, tppc)
    base = L.base
    Y = L.ybus()
    a, q = L.pv + L.pq, L.pq
    labels = base_labels(net, L) + ['par=%d' % s['par'], 'stop=%s' % (s['stop'] if isinstance(s['stop'], str) else 'lam'), 'adapt=%d' % s['adapt']]
    eff = np.abs(np.r_[X.real[a], X.imag[q]]).max() if a else 0.0
    if eff < 1e-3 and not (np.abs(X).max() if L.n else 0) == 0:
        return labels + ['no-transfer']         # (nothing to trace: the injections that move are not specified)
    c, t = gen.arr(ppc), gen.arr(tppc)
    res, ok, seen = trace(s, c, t)
    vm0, va0 = L.start()
    vc = L.pv + L.refs
    pts = [p for p in seen if p != 'final']
    S0 = L.sbus()

    def point(V, lam, what):
        S = V * np.conj(Y @ V)
        mis = S - S0 - lam * X
        close(mis.real[a], np.zeros(len(a)), s['tol'] * 2 + 1e-9, 'P-mismatch', '%s: P' % what)
        close(mis.imag[q], np.zeros(len(q)), s['tol'] * 2 + 1e-9, 'Q-mismatch', '%s: Q' % what)
        close(np.abs(V[vc]), vm0[vc], 1e-9, 'V-setpoint', '%s: voltage set-points' % what)
        close(np.angle(V[L.refs] * np.exp(-1j * va0[L.refs])), np.zeros(len(L.refs)), 1e-9, 'ref-angle', '%s: reference angle' % what)

    fin = res is not None and bool(ok)
    for p in pts if pts and (fin or len(pts) > 1) else []:
        expect(len(p[1]) == L.n, 'size', 'points of the wrong size')
        point(p[1], p[2], 'step %d (loading %g)' % (p[0], p[2]))
        expect(p[5] == s['args'], 'callback', 'arguments of the callback: %r' % (p[5],))
    expect([p[0] for p in pts] == list(range(len(pts))), 'callback', 'callback steps %s' % [p[0] for p in pts])
    steps(s, L, pts)
    # before the nose the orientation of the equations does not change
    if len(pts) > 1:
        turn = [i for i in range(1, len(pts)) if pts[i][2] < pts[i - 1][2]]
    else:
        turn = []
    if res is None:
        return labels + ['capped', 'nontrivial']
    expect(bool(res['success']) == bool(ok), 'success-flag', 'returned flag differs from the results')
    if not ok:
        expect('final' not in seen, 'callback', 'final callback after a failure')
        expect('max_lam' not in res['cpf'], 'failed', 'a failed run reports a maximum loading')
        expect(0 <= int(res['cpf']['iterations']) <= 60, 'failed', 'iterations of a failed run: %r' % (res['cpf']['iterations'],))
        if s['mode'] == 'fixed':
            must_reach(s, L, Y, S0, X)
        pf = L.newton(tol=1e-10)
        expect(len(pts) > 1 or pf[2] is None or pf[3] > 1e5 or 'multiref' in net['feats'] or s['par'] == 1 or max(pf[4]) > 1e-3 or s['step'] > .1, 'first-step',
               'not even one step from a solved base case')
        return labels + ['failed']
    expect(seen[-1] == 'final' and seen.count('final') == 1, 'callback', 'final callback not made once at the end')
    r = res['cpf']
    expect(r['watched'] == [len(pts) + 1, s['args']], 'callback', 'results of the callback: %r' % (r.get('watched'),))
    n = len(pts)
    expect(int(r['iterations']) == n - 1, 'iterations', 'iterations %r, %d steps made' % (r['iterations'], n - 1))
    # reported points are those traced
    lam_c, lam_p = np.ravel(r['lam_c']), np.ravel(r['lam_p'])
    close(lam_c, np.array([p[2] for p in pts]), 0, 'lam', 'loadings reported')
    close(lam_p, np.array([p[4] for p in pts]), 0, 'lam', 'predicted loadings reported')
    close(float(np.ravel(r['max_lam'])[0]), max(p[2] for p in pts), 0, 'max-lam', 'maximum loading')
    for f, i in (('V_c', 1), ('V_p', 3)):
        M = np.asarray(r[f])
        expect(M.shape == (len(ppc['bus']), n), f, 'shape of %s: %s' % (f, M.shape))
        close(M[L.rows], np.array([p[i] for p in pts]).T, 0, f, '%s in external order' % f)
        out = [k for k in range(len(ppc['bus'])) if k not in L.rows]
        expect(bool(np.all(np.isnan(M[out]))), f, '%s at isolated buses' % f)
    # stopping rule
    last = pts[-1][2]
    if n == 1:
        expect(np.abs(X).max() < 1e-12, 'stop', 'stopped without a step')
    elif isinstance(s['stop'], str) and s['stop'].upper() == 'FULL':
        expect(abs(last) < 1e-8, 'stop', 'full curve ends at loading %g' % last)
        expect(bool(turn), 'stop', 'full curve without a nose')
    else:
        expect(all(i == n - 1 for i in turn), 'stop', 'went on after the nose')
        if isinstance(s['stop'], str):
            expect(turn == [n - 1], 'stop', 'stopped before the nose at loading %g' % last)
        elif not turn:
            expect(abs(last - s['stop']) < 1e-8, 'stop', 'asked to stop at %g, ended at %g' % (s['stop'], last))
        else:
            expect(max(p[2] for p in pts) <= s['stop'] + 1e-8, 'stop', 'went past %g (to %g)' % (s['stop'], max(p[2] for p in pts)))
    if isinstance(s['stop'], float):
        expect(max(p[2] for p in pts) <= s['stop'] + 1e-8, 'stop', 'went past %g (to %g)' % (s['stop'], max(p[2] for p in pts)))
        if n > 1 and abs(last - s['stop']) > 1e-8:
            must_reach(s, L, Y, S0, X)
    state(s, L, Y, X, res, pts[-1][1], last)
    if s['file']:
        files(s, res)
    return labels + (['nontrivial'] if n >= 3 else [])


def steps(s, L, pts):
    """Without adaptation every step but the last ones has the length asked for."""
    a, q = L.pv + L.pq, L.pq
    stop = s['stop']
    if s['adapt']:
        return adapted(s, a, q, pts)
    for i in range(1, len(pts)):
        p, o = pts[i], pts[i - 1]
        if isinstance(stop, float) and o[2] + s['step'] > stop - 1e-9:
            continue
        if p[2] < o[2] and o[2] - s['step'] < 1e-9 or i > 1 and o[2] < pts[i - 2][2] and o[2] - s['step'] < 1e-9:
            continue
        if isinstance(stop, float) and abs(p[2] - stop) < 1e-8:
            continue
        dang = np.angle(p[1] * np.conj(o[1]))[a]
        dv = (np.abs(p[1]) - np.abs(o[1]))[q]
        dl = p[2] - o[2]
        pa = np.angle(p[3] * np.conj(o[1]))[a]
        pv = (np.abs(p[3]) - np.abs(o[1]))[q]
        if s['par'] == 1:
            close(abs(dl), s['step'], 1e-7, 'step', 'natural step %d' % i)
        elif s['par'] == 2:
            close(math.sqrt((dang ** 2).sum() + (dv ** 2).sum() + dl ** 2), s['step'], 1e-6, 'step', 'arc length of step %d' % i)
        else:
            z = np.r_[pa, pv, p[4] - o[2]]
            expect(np.linalg.norm(z) > 1e-12, 'step', 'empty prediction')
            close(np.linalg.norm(z), s['step'], 1e-7, 'step', 'length of prediction %d' % i)
            close(float(z @ np.r_[dang, dv, dl]) / s['step'], s['step'], 1e-6, 'step', 'projected length of step %d' % i)


def adapted(s, a, q, pts):
    """With adaptation the step stays within its bounds and moves the right way with the error of the last prediction."""
    stop, tol = s['stop'], s['etol']
    last = err = None
    for i in range(1, len(pts)):
        p, o = pts[i], pts[i - 1]
        if isinstance(stop, float) and abs(p[2] - stop) < 1e-7 or not isinstance(stop, float) and (abs(p[2]) < 1e-7 or o[2] < 0):
            return              # (the step that ends the trace is cut to fit)
        x = np.angle(p[3] * np.conj(o[1]))[a]
        v = (np.abs(p[3]) - np.abs(o[1]))[q]
        step = math.sqrt((x ** 2).sum() + (v ** 2).sum() + (p[4] - o[2]) ** 2)
        if i == 1:
            close(step, s['step'], 1e-7, 'step', 'length of the first prediction')
        else:
            expect(step <= max(s['smax'], s['step']) + 1e-7, 'step-max', 'step %d is %g long, the maximum is %g' % (i, step, s['smax']))
            expect(step >= min(s['smin'], s['step']) - 1e-7, 'step-min', 'step %d is %g long, the minimum is %g' % (i, step, s['smin']))
            if err[0] < .95 * tol:
                expect(step >= min(last, s['smax']) - 1e-7, 'step-shrinks', 'step %d is %g long after %g, although the last prediction was off by %g only (tolerance %g)' % (i, step, last, err[0], tol))
            if err[1] > 1.05 * tol:
                expect(step <= max(last, s['smin']) + 1e-7, 'step-grows', 'step %d is %g long after %g, although the last prediction was off by %g (tolerance %g)' % (i, step, last, err[1], tol))
        da, dv = np.abs(np.angle(p[1] * np.conj(p[3]))), np.abs(np.abs(p[1]) - np.abs(p[3]))
        dl = abs(p[2] - p[4])
        # (whether angles at PV buses count is not specified)
        err = max([dl] + list(da[a]) + list(dv[q])), max([dl] + list(da[q]) + list(dv[q]))
        last = step


def must_reach(s, L, Y, S0, X):
    """A loading reached by gentle independent power flows all the way must be reached."""
    if s['par'] == 2 and s['step'] > .1:
        return
    V0 = None
    k = 40
    worst = 0
    start = L.start()
    prev = None
    for i in range(k + 1):
        lam = min(1.0, i / (k - 4.0)) * s['stop'] if i < k - 4 else s['stop'] * (1 + .1 * (i - k + 4))
        vm, va, it, cond, hist = L.newton(tol=1e-10, S=S0 + lam * X, start=start)
        if it is None or it > 4 + 3 * (i == 0):
            return
        worst = max(worst, cond)
        start = vm, va
        if i and max(np.abs(vm - prev[0]).max(), np.abs(va - prev[1]).max()) > .03:
            return
        prev = vm, va
    if worst > 300:
        return
    raise Violation('reach', 'loading %g was not reached, although the way there is easy (condition %.3g)' % (s['stop'], worst))


def state(s, L, Y, X, res, V, lam):
    """The returned case is the one at the final point."""
    base = L.base
    ppc, tppc = s['net']['ppc'], s['target']
    B, T = np.array(ppc['bus'], float), np.array(tppc['bus'], float)
    GB, GT = np.array(ppc['gen'], float), np.array(tppc['gen'], float)
    rb, rg = res['bus'], res['gen']
    sc = 1 + np.abs(X).max() * abs(lam)
    close(rb[L.rows][:, 2:4], (B + lam * (T - B))[L.rows][:, 2:4], 1e-8 * base * sc, 'loads', 'loads at the final loading')
    close(rb[L.rows, 7], np.abs(V), 1e-12, 'vm', 'final voltage magnitudes')
    close(wrapdeg(rb[L.rows, 8] - np.angle(V) / D2R), np.zeros(L.n), 1e-9, 'va', 'final angles')
    for k, b in zip(L.g, L.gb):
        if b not in L.refs:
            close(rg[k, 1], (GB + lam * (GT - GB))[k, 1], 1e-8 * base * sc, 'pg', 'dispatch of unit %d' % k)
        if b in L.pq:
            close(rg[k, 2], (GB + lam * (GT - GB))[k, 2], 1e-8 * base * sc, 'qg', 'reactive output of unit %d at a PQ bus' % k)
    for b in L.refs:
        moved = [k for k in L.gens_at[b] if abs(rg[k, 1] - (GB + lam * (GT - GB))[k, 1]) > 1e-8 * base * sc]
        expect(len(moved) <= 1, 'pg', 'units %s at one reference bus are off their schedule' % moved)
    close(rg[L.gout][:, 1:3], np.zeros((len(L.gout), 2)), 0, 'off-gen', 'units out of service')
    R = ref.Live({'baseMVA': base, 'bus': rb, 'gen': rg, 'branch': res['branch']})
    S = V * np.conj(Y @ V)
    close(S, R.sbus(), s['tol'] * 4 + 1e-8 * (1 + np.abs(S).max()), 'balance', 'the reported state balances')
    Sf, St = L.flows(V)
    m = res['branch'][L.br][:, 13:17] if L.br else np.zeros((0, 4))
    big = 1 + (np.abs(m).max() if m.size else 0)
    close(m[:, 0] + 1j * m[:, 1], Sf, 1e-8 * big, 'flow', 'flows at the from end')
    close(m[:, 2] + 1j * m[:, 3], St, 1e-8 * big, 'flow', 'flows at the to end')
    close(res['branch'][L.brout][:, 13:17], np.zeros((len(L.brout), 4)), 0, 'off-branch', 'flows of branches out of service')
    for nm, new, old, cols in (('bus', rb, T, [0, 1, 4, 5, 6, 9, 10, 11, 12]), ('gen', rg, GT, [0, 3, 4, 5, 6, 7, 8, 9]), ('branch', res['branch'], np.array(tppc['branch'], float), list(range(13)))):
        expect(np.array_equal(new[:, cols], old[:, cols]), 'data', '%s data come back changed' % nm)


def files(s, res):
    import tempfile, shutil, os
    from pypower.runcpf import runcpf
    from pypower.loadcase import loadcase
    d = tempfile.mkdtemp(prefix='verif-cpf-')
    try:
        f, g = os.path.join(d, 'out.txt'), os.path.join(d, 'solved.py')
        o = opts(CPF_PARAMETERIZATION=s['par'], CPF_STOP_AT=s['stop'], CPF_STEP=s['step'], CPF_ADAPT_STEP=bool(s['adapt']), CPF_ERROR_TOL=s['etol'],
                 CPF_STEP_MIN=s['smin'], CPF_STEP_MAX=s['smax'], PF_TOL=s['tol'], PF_MAX_IT=12)
        o['OUT_ALL'] = -1
        with contextlib.redirect_stdout(io.StringIO()) as out:
            r2, ok = runcpf(gen.arr(s['net']['ppc']), gen.arr(s['target']), o, f, g)
        expect(bool(ok), 'file', 'the same run with files fails')
        for k in ('bus', 'gen', 'branch'):
            expect(np.array_equal(r2[k], res[k]), 'file', 'the same run with files gives another %s table' % k)
        txt = open(f).read()
        expect('Converged in' in txt and 'Bus Data' in txt, 'file', 'report missing from the file')
        c = loadcase(g)
        for k in ('bus', 'gen', 'branch'):
            expect(c[k].shape == res[k].shape and np.allclose(c[k], res[k], 1e-5, 1e-3), 'file', 'solved case read back: %s' % k)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- two buses: everything in closed form

def make2(d, mode):
    base = d.pick([100.0, 10.0, 1000.0])
    E = d.f(.95, 1.1, 3)
    x = d.f(.05, .5)
    r = d.f(0, .3) * x if d.b() else 0.0
    b = d.f(0, .2) if d.b() else 0.0
    tap = d.f(.9, 1.1) if d.b() else 0.0
    sh = d.cf(-20, 20) if d.chance(.3) else 0.0
    p0, q0 = d.f(0, .1) / x, d.cf(-.02, .05) / x
    dp, dq = d.f(.02, .3) / x, d.cf(-.05, .15) / x
    flip = d.b()
    f, t = (2, 1) if flip else (1, 2)
    a = 0.0
    bus = [[1, 3, 0, 0, 0, 0, 1, 1.0, a, 135, 1, 1.1, .9], [2, 1, round(p0 * base, 4), round(q0 * base, 4), 0, 0, 1, 1.0, a, 135, 1, 1.1, .9]]
    g = [[1, 0, 0, 999 * base, -999 * base, E, base, 1, 999 * base, 0] + [0] * 11]
    br = [[f, t, round(r, 6), x, b, 0, 0, 0, tap, sh, 1, -360, 360]]
    ppc = {'version': '2', 'baseMVA': base, 'bus': bus, 'gen': g, 'branch': br}
    tb = [list(k) for k in bus]
    tb[1][2] = round(bus[1][2] + dp * base, 4)
    tb[1][3] = round(bus[1][3] + dq * base, 4)
    t = dict(ppc, bus=tb)
    return {'ppc': ppc, 'target': t, 'par': d.pick([3, 3, 2]), 'step': d.f(.01, .1), 'adapt': d.chance(.3), 'etol': d.pick([1e-3, 1e-2]), 'smin': 1e-4,
            'smax': d.pick([.1, .2]), 'stop': d.pick(['NOSE', 'NOSE', 'FULL']), 'args': 0, 'cap': 1500, 'tol': 1e-8}


def nose(ppc, tppc):
    """Loading at the nose of a two-bus system, and the solutions at a loading."""
    L = ref.Live(ppc)
    T = ref.Live(tppc)
    Y = L.ybus()
    E = L.gen[0, 5]
    # load bus: S = V2 conj(Y21 E + Y22 V2)  with S = -(p+jq); W = |V2|^2
    # conj(S) = conj(V2) Y21 E + Y22 W  ->  |conj(S) - Y22 W| = |Y21| E sqrt(W)
    y22, y21 = Y[1, 1], abs(Y[1, 0])

    def disc(lam):
        S = (L.sbus() + lam * (T.sbus() - L.sbus()))[1]
        c = np.conj(S)
        # |c|^2 - 2 W Re(c conj(y22)) + |y22|^2 W^2 = y21^2 E^2 W
        A = abs(y22) ** 2
        B = -2 * (c * np.conj(y22)).real - y21 ** 2 * E ** 2
        C = abs(c) ** 2
        return A, B, C
    D = lambda lam: disc(lam)[1] ** 2 - 4 * disc(lam)[0] * disc(lam)[2]
    # D is a quadratic in the loading
    c0 = D(0.0)
    c2 = (D(1.0) + D(-1.0) - 2 * c0) / 2
    c1 = (D(1.0) - D(-1.0)) / 2
    if abs(c2) < 1e-12 * max(abs(c1), abs(c0)):
        roots = [-c0 / c1]
    else:
        q = c1 * c1 - 4 * c2 * c0
        if q < 0:
            return None, None, L
        roots = [(-c1 - math.sqrt(q)) / (2 * c2), (-c1 + math.sqrt(q)) / (2 * c2)]
    roots = sorted(r for r in roots if r > 0)

    def vm(lam):
        A, B, C = disc(lam)
        h = max(0.0, B * B - 4 * A * C)
        return [math.sqrt(max(0.0, (-B + sg * math.sqrt(h)) / (2 * A))) for sg in (1, -1)]
    return (roots[0] if roots else None), vm, L, c0


def check2(s):
    ppc, t = s['ppc'], s['target']
    q = nose(ppc, t)
    if q[0] is None or q[-1] <= 1e-6:
        return ['no-nose']
    lmax, vm, L = q[:3]
    hi = vm(0.0)
    if hi[0] < .75 or lmax < 3 * s['step'] or lmax > 40 or hi[0] - hi[1] < .25:
        return ['odd']
    res, ok, seen = trace(s, gen.arr(ppc), gen.arr(t))
    pts = [p for p in seen if p != 'final']
    if res is None:
        return ['capped']
    if not ok and (lmax > 1.5 or s['step'] > .05):
        return ['failed']
    expect(bool(ok), 'failed', 'two-bus trace fails after %d steps at loading %g (nose at %g)' % (len(pts), pts[-1][2], lmax))
    got = float(np.ravel(res['cpf']['max_lam'])[0])
    expect(got <= lmax * (1 + 1e-6) + 1e-7, 'nose', 'maximum loading %.9g, but there is no solution beyond %.9g' % (got, lmax))
    smax = s['smax'] if s['adapt'] else s['step']
    smax = max(smax, s['step'])
    i = int(np.argmax([p[2] for p in pts]))
    # one step from the largest point on either side
    gap = lmax - got
    lim = max(abs(pts[i][2] - pts[j][2]) for j in (i - 1, i + 1) if 0 <= j < len(pts))
    expect(gap <= 1.0 * lim + 4 * smax ** 2 + 1e-6, 'nose', 'maximum loading %.6g, the nose is at %.6g (neighbouring points within %.3g)' % (got, lmax, lim))
    up = True
    for j, p in enumerate(pts):
        a, b = vm(p[2])
        v = abs(p[1][1])
        expect(min(abs(v - a), abs(v - b)) < 1e-4 + 2 * math.sqrt(1e-6 if lmax - p[2] < 1e-3 else 0), 'curve', 'point %d (loading %g): voltage %g is not on the curve (%g or %g)' % (j, p[2], v, a, b))
        if j == 0:
            expect(abs(v - a) < 1e-5, 'branch', 'the trace starts on the lower branch')
        if lmax - p[2] > 1e-2 * lmax and lmax - p[2] > 4 * smax ** 2:
            # before the nose on the upper branch, after it on the lower
            expect(abs(v - (a if j <= i else b)) < 1e-4, 'branch', 'point %d (loading %g of %g, after the nose: %s) is on the wrong branch' % (j, p[2], lmax, j > i))
    if s['stop'] == 'FULL':
        expect(abs(abs(pts[-1][1][1]) - vm(0.0)[1]) < 1e-4, 'full', 'the full curve ends at voltage %g instead of %g' % (abs(pts[-1][1][1]), vm(0.0)[1]))
    return ['stop=' + s['stop'], 'par=%d' % s['par']] + (['nontrivial'] if len(pts) > 3 else [])


SUBS = [Sub('trace', gen.spec_strategy(make, 'trace'), check, 300, 8000, limit=120),
        Sub('fixed', gen.spec_strategy(make, 'fixed'), check, 500, 10000, limit=120),
        Sub('two', gen.spec_strategy(make2, 'two'), check2, 200, 4000, limit=120)]
