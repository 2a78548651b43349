"""P29  The command line runs the same computation as the API."""
import contextlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, ref, acopf, dcopf
from vlib.util import same

ID = 'P29'
RULE = ('random argument lists (options spelled --name=value and --name value, abbreviated, all accepted spellings of booleans, built-in cases and case files, '
        'report and result files) for both commands; oracle: the same computation through the API with the option values meant. '
        'Non-trivial: at least two options set, or a result file compared')
AFF = ['True', 'Yes', 'true', 'yes', '1', 'Y', 'y']
NEG = ['False', 'No', 'false', 'no', '0', 'N', 'n']
PF = [('pf_alg', 'i', 1, 4), ('pf_tol', 'f'), ('pf_max_it', 'i', 0, 12), ('pf_max_it_fd', 'i', 0, 40), ('pf_max_it_gs', 'i', 0, 60), ('enforce_q_lims', 'b'),
      ('pf_dc', 'b'), ('pf_lin_solver_nr', 's')]
OPF = [('opf_alg', 'p', [0, 560, 565]), ('opf_violation', 'f'), ('opf_flow_lim', 'i', 0, 2), ('opf_ignore_ang_lim', 'b'), ('opf_alg_dc', 'p', [0, 200, 250])]
PDIPM = [('pdipm_feastol', 'f'), ('pdipm_gradtol', 'f'), ('pdipm_comptol', 'f'), ('pdipm_costtol', 'f'), ('pdipm_max_it', 'i', 1, 200), ('scpdipm_red_it', 'i', 1, 40)]
OUT = [('verbose', 'i', 0, 1), ('out_all', 'i', -1, 1), ('out_sys_sum', 'b'), ('out_area_sum', 'b'), ('out_bus', 'b'), ('out_branch', 'b'), ('out_gen', 'b'),
       ('out_all_lim', 'i', -1, 2), ('out_v_lim', 'i', 0, 2), ('out_line_lim', 'i', 0, 2), ('out_pg_lim', 'i', 0, 2), ('out_qg_lim', 'i', 0, 2),
       ('return_raw_der', 'i', 0, 1)]
CASES = ['case4gs', 'case6ww', 'case9', 'case9Q', 'case14', 'case24_ieee_rts', 'case30', 'case30Q', 'case30pwl', 'case39', 'case57', 'case118', 'case300',
         'case30_userfcns']
FAST = ['case4gs', 'case6ww', 'case9', 'case9Q', 'case14', 'case30']
DEFAULTS = dict(PF_ALG=1, PF_TOL=1e-8, PF_MAX_IT=10, PF_MAX_IT_FD=30, PF_MAX_IT_GS=1000, ENFORCE_Q_LIMS=False, PF_DC=False, PF_LIN_SOLVER_NR='', OPF_ALG=0,
                OPF_VIOLATION=5e-6, OPF_FLOW_LIM=0, OPF_IGNORE_ANG_LIM=False, OPF_ALG_DC=0, VERBOSE=1, OUT_ALL=-1, OUT_SYS_SUM=True, OUT_AREA_SUM=False, OUT_BUS=True,
                OUT_BRANCH=True, OUT_GEN=False, OUT_ALL_LIM=-1, OUT_V_LIM=1, OUT_LINE_LIM=1, OUT_PG_LIM=1, OUT_QG_LIM=1, RETURN_RAW_DER=0, PDIPM_FEASTOL=0,
                PDIPM_GRADTOL=1e-6, PDIPM_COMPTOL=1e-6, PDIPM_COSTTOL=1e-6, PDIPM_MAX_IT=150, SCPDIPM_RED_IT=20)


def draw_opts(d, table, p, mild=False):
    """[[argument strings], NAME, value] for a random subset of the options."""
    res = []
    for o in table:
        if not d.chance(p):
            continue
        t = o[1]
        if t == 'i':
            v = d.i(o[2], o[3])
            w = '%d' % v
        elif t == 'p':
            v = d.pick(o[2])
            w = '%d' % v
        elif t == 'f':
            v = 10.0 ** -d.i(4 if mild else 1, 8) * d.pick([1, 2, 5])
            w = d.pick(['%r', '%g', '%.3e']) % v
            v = float(w)
        elif t == 's':
            v = w = d.pick(['', 'superlu', 'spsolve', 'x1', 'LU'] + ([] if mild else ['y', 'no', '0']))
        else:
            v = d.b()
            w = d.pick(AFF if v else NEG)
        name = o[0]
        if d.chance(.1):                    # an unambiguous abbreviation
            every = [x[0] for x in PF + OPF + PDIPM + OUT] + ['outfile', 'version', 'uopf', 'test', 'testcase', 'solvedcase', 'w_res', 'help']
            k = d.i(3, len(name))
            if sum(n.startswith(name[:k]) for n in every) == 1:
                name = name[:k]
        res.append([d.pick([['--%s=%s' % (name, w)], ['--%s' % name, w]]), o[0].upper(), v])
        if d.chance(.05):                   # given twice: the last one counts
            res.insert(len(res) - 1, [['--%s=%s' % (o[0], w if t != 'i' else '3')], None, None])
    return [res[i] for i in d.perm(len(res))] if not any(r[1] is None for r in res) and len(res) > 1 and d.chance(.5) else res


class D(object):
    """Dr with the permutation of a cell stream."""
    def __init__(self, d):
        self.__dict__.update(d=d)

    def __getattr__(self, n):
        return getattr(self.d, n)

    def perm(self, n):
        return self.d.cells(n + 1).perm(n)


def small_case(d, mode):
    if mode == 'pf':
        net = gen.draw_net(d, nb_max=6, stress=.8, forbid=['multiref'])
        gen.perturb_start(d, net['ppc'])
    else:
        net = gen.draw_net(d, nb_max=4, stress=.6, forbid=['multiref'])
        acopf.add_opf(d, net, tight=.05, pqcap=.05, disp=.2, qcost=.1, rates=.2, fixed=0, angle=.1)
    return net


@contextlib.contextmanager
def captured(out):
    """Everything written to the process's stdout and stderr, whoever holds the stream."""
    f = tempfile.TemporaryFile()
    sys.stdout.flush(), sys.stderr.flush()
    o = os.dup(1), os.dup(2)
    os.dup2(f.fileno(), 1), os.dup2(f.fileno(), 2)
    try:
        yield
    finally:
        sys.stdout.flush(), sys.stderr.flush()
        os.dup2(o[0], 1), os.dup2(o[1], 2)
        os.close(o[0]), os.close(o[1])
        f.seek(0)
        out.append(f.read().decode('utf8', 'replace'))
        f.close()


def steady(text):
    return re.sub(r'\d+\.\d\d seconds', 'T seconds', text)


# ---------------------------------------------------------------- option values
def parse_spec(d):
    cmd = d.pick(['pf', 'opf'])
    dd = D(d)
    tab = PF + OUT if cmd == 'pf' else OPF + PDIPM + OUT
    ops = draw_opts(dd, tab, d.pick([.1, .3, .6]))
    return {'cmd': cmd, 'ops': ops, 'case': d.pick(CASES), 'how': d.pick(['-c', '--testcase', 'path', 'default']), 'u': d.chance(.25), 'r': d.chance(.25),
            'out': d.pick(['', '', '-o', '--outfile']), 'solved': d.pick(['', '', '-s', '--solvedcase']), 'ok': d.b(), 'where': d.i(0, 9)}


def check_parse(s):
    import pypower.main as main
    from pypower.api import ppoption
    names = ['runpf', 'runopf', 'runuopf', 'runopf_w_res']
    for n in names:
        if not hasattr(main, n):
            return ['no-entry']
    seen = []

    def stand_in(n):
        def f(casedata=None, ppopt=None, fname='', solvedcase=''):
            seen.append((n, casedata, ppopt, fname, solvedcase))
            r = {'success': s['ok']}
            return (r, s['ok']) if n == 'runpf' else r
        return f
    args = [a for o in s['ops'] for a in o[0]]
    extra = []
    if s['how'] in ('-c', '--testcase'):
        extra = [s['how'], s['case']]
    elif s['how'] == 'path':
        extra = ['/no/such/place/%s.py' % s['case']]
    if s['out']:
        extra += [s['out'], 'report.txt']
    if s['solved']:
        extra += [s['solved'], 'solved.mat']
    if s['cmd'] == 'opf':
        extra += ([['-u'], ['--uopf']][s['where'] % 2] if s['u'] else []) + ([['-r'], ['--w_res']][s['where'] % 2] if s['r'] and not s['u'] else [])
    args = extra + args if s['where'] < 5 else args + extra
    old = {n: getattr(main, n) for n in names}
    out, code = [], None
    try:
        for n in names:
            setattr(main, n, stand_in(n))
        with captured(out):
            try:
                getattr(main, s['cmd'])(list(args))
            except SystemExit as e:
                code = e.code
    finally:
        for n in names:
            setattr(main, n, old[n])
    expect(seen, 'not-run', lambda: 'arguments %s: nothing was run; exit %r; output %s' % (args, code, out[0][-300:]))
    expect(len(seen) == 1, 'run-twice', '')
    n, casedata, ppopt, fname, solved = seen[0]
    want = 'runpf' if s['cmd'] == 'pf' else 'runuopf' if s['u'] else 'runopf_w_res' if s['r'] else 'runopf'
    expect(n == want, 'wrong-command', '%s ran instead of %s' % (n, want))
    vals = {o[1]: o[2] for o in s['ops'] if o[1]}
    for k, v in vals.items():
        got = ppopt.get(k)
        expect(got == v and (type(got) is type(v) or not isinstance(v, (bool, str)) and not isinstance(got, (bool, str))), 'option-value',
               lambda: '%s is %r, given %r (arguments %s)' % (k, got, v, args))
    for k, v in DEFAULTS.items():
        if k not in vals:
            expect(ppopt.get(k, v) == v, 'option-default', lambda: '%s is %r but was not set (arguments %s)' % (k, ppopt.get(k), args))
    for k, v in ppoption(**vals).items():
        expect(k in ppopt and ppopt[k] == v, 'option-api', lambda: '%s is %r, %r from the API (arguments %s)' % (k, ppopt.get(k), v, args))
    extra = set(ppopt) - set(ppoption(**vals))
    expect(not extra, 'option-extra', lambda: 'the command adds options %s' % sorted(extra))
    expect((fname or '') == ('report.txt' if s['out'] else ''), 'report-name', '%r' % (fname,))
    expect((solved or '') == ('solved.mat' if s['solved'] else ''), 'solved-name', '%r' % (solved,))
    if s['how'] == 'path':
        expect(casedata == '/no/such/place/%s.py' % s['case'], 'case-path', '%r' % (casedata,))
    else:
        import pypower.api as api
        c = s['case'] if s['how'] != 'default' else 'case9'
        fn = api.t_case30_userfcns if c == 'case30_userfcns' else getattr(api, c)
        expect(same(casedata if isinstance(casedata, dict) else fn(), fn()), 'case-data', '%s is not the built-in case' % c)
    expect((code in (None, 0)) == s['ok'], 'exit-status', 'success=%s but exit status %r' % (s['ok'], code))
    return ['nontrivial'] * (len(vals) > 1) + [s['cmd'], n, 'case-' + s['how']]


# ------------------------------------------------------------------- end to end
def run_spec(d, cmd):
    dd = D(d)
    fast = d.chance(.35)
    if cmd == 'pf':
        ops = draw_opts(dd, PF, .3, True) + draw_opts(dd, OUT, .25)
    else:
        ops = draw_opts(dd, OPF + PDIPM, .2, True) + draw_opts(dd, OUT, .25)
        if d.chance(.2):
            k = d.i(1, 9)
            ops = [o for o in ops if o[1] != 'PDIPM_MAX_IT'] + [[['--pdipm_max_it', '%d' % k], 'PDIPM_MAX_IT', k]]
    return {'cmd': cmd, 'ops': [o for o in ops if o[1]], 'net': None if fast else small_case(d, cmd), 'case': d.pick(FAST if cmd == 'pf' else FAST[:5]),
            'ext': d.pick(['.py', '.mat', '.py-short', '.mat-short']), 'u': d.chance(.2), 'r': d.chance(.25), 'report': d.chance(.6),
            'append': d.chance(.3), 'solved': d.pick(['', '.py', '.mat']), 'reserves': d.i(1, 4)}


def check_run(s):
    from pypower.api import runpf, runopf, runuopf, runopf_w_res, ppoption, savecase, loadcase, rundcpf
    import pypower.main as main
    import pypower.api as api
    w = tempfile.mkdtemp(prefix='verif-cli-')
    labels = [s['cmd']]
    try:
        args = [a for o in s['ops'] for a in o[0]]
        vals = {o[1]: o[2] for o in s['ops']}
        if s['net'] is None:
            args += ['-c', s['case']]
            case = getattr(api, s['case'])()
            if s['cmd'] == 'pf' and vals.get('PF_ALG') == 4:
                vals.setdefault('PF_MAX_IT_GS', 60)
                args += ['--pf_max_it_gs=%d' % vals['PF_MAX_IT_GS']]
            res = s['cmd'] == 'opf' and s['r'] and s['case'] == 'case9' and not s['u']
            if res:
                args[-1] = 'case30_userfcns'
                case = api.t_case30_userfcns()
        else:
            case = gen.arr(s['net']['ppc'])
            res = s['cmd'] == 'opf' and s['r'] and not s['u']
            if res:
                ng = len(case['gen'])
                case['reserves'] = {'zones': np.ones((1, ng)), 'req': np.array([.02 * s['reserves'] * case['baseMVA']]),
                                    'cost': np.arange(1.0, ng + 1), 'qty': .3 * case['gen'][:, 8] - .3 * np.minimum(case['gen'][:, 9], 0) + .1 * case['baseMVA']}
            e = s['ext']
            if res:
                e = '.py'
            f = os.path.join(w, 'incase' + e[:4].rstrip('-s'))
            if res:
                write_case(f, case)
            else:
                savecase(f, case)
            args += [f if 'short' not in e else os.path.join(w, 'incase')]
            case = args[-1]
        u = s['cmd'] == 'opf' and s['u']
        args += (['-u'] if u else []) + (['-r'] if res else [])
        fn = runpf if s['cmd'] == 'pf' else runuopf if u else runopf_w_res if res else runopf
        o = ppoption(**vals)
        rep = [os.path.join(w, n) if s['report'] else '' for n in ('ra.txt', 'rb.txt')]
        sol = [os.path.join(w, n + s['solved']) if s['solved'] else '' for n in ('sa', 'sb')]
        if s['append'] and s['report']:
            for f in rep:
                open(f, 'w').write('an earlier report\n')
        oa, ob, ea, code = [], [], None, None
        ok = None
        with captured(oa):
            try:
                r = fn(case, o, rep[0], sol[0])
                ok = bool(r[1] if s['cmd'] == 'pf' else r['success'])
            except Exception as e:
                ea = e
        args += (['-o', rep[1]] if s['report'] else []) + (['-s', sol[1]] if s['solved'] else [])
        with captured(ob):
            try:
                getattr(main, s['cmd'])(list(args))
            except SystemExit as e:
                code = e.code
            except Exception as e:
                code = e
        if ea is not None:
            expect(code not in (None, 0), 'exit-status', lambda: 'the API fails with %r, the command (%s) exits with %r' % (ea, args, code))
            return labels + ['api-error', 'api-' + type(ea).__name__, 'api-' + fn.__name__]
        expect((code in (None, 0)) == ok, 'exit-status', lambda: 'success=%s but the command %s exits with %r\n%s' % (ok, args, code, ob[0][-400:]))
        A, B = steady(oa[0]), steady(ob[0])
        expect(A == B, 'console', lambda: 'arguments %s: output differs\n%s' % (args, diff(A, B)))
        if s['report']:
            A, B = [steady(open(f).read()) for f in rep]
            expect(A == B, 'report', lambda: 'arguments %s: report differs\n%s' % (args, diff(A, B)))
        if s['solved']:
            expect(os.path.exists(sol[1]) == os.path.exists(sol[0]), 'solved-missing', '')
            a, b = loadcase(sol[0], return_as_obj=True), loadcase(sol[1], return_as_obj=True)
            expect(set(a) == set(b), 'solved-fields', '%s' % (set(a) ^ set(b)))
            for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost', 'areas'):
                if k in a:
                    expect(same(a[k], b[k]), 'solved-data', lambda: 'arguments %s: %s differs in the solved case' % (args, k))
        labels += ['ok' if ok else 'failed', fn.__name__] + (['solved'] if s['solved'] else []) + (['report'] if s['report'] else [])
        if s['solved'] or len(vals) > 1:
            labels.append('nontrivial')
        return labels
    finally:
        shutil.rmtree(w, ignore_errors=True)


def write_case(f, case):
    def text(v):
        return 'array(%r, float)' % (v.tolist(),) if isinstance(v, np.ndarray) else '{%s}' % ', '.join('%r: %s' % (k, text(v[k])) for k in v) if isinstance(v, dict) else repr(v)
    with open(f, 'w') as fd:
        fd.write('from numpy import array, inf, nan\n\ndef incase():\n    return %s\n' % text(case))


def diff(a, b):
    import difflib
    return '\n'.join(list(difflib.unified_diff(a.split('\n'), b.split('\n'), lineterm='', n=0))[:14])


# -------------------------------------------------------------- wrong arguments
WRONG = [['a', 'b'], ['-c', 'case31'], ['--testcase=nothing'], ['--verbose=x'], ['--pf_tol=abc', '--opf_violation=abc'], ['--no_such_option=1'],
         ['--out_bus=maybe'], ['--out_bus='], ['--out_gen=2'], ['--out_all=y'], ['--opf_flow_lim=1.5', '--pf_alg=1.5'], ['/no/such/case.py'], ['/no/such/case'],
         ['/no/such/case.mat'], ['--pf_dc=-', '--opf_ignore_ang_lim=-'], ['--pf_max_it=', '--pdipm_max_it='], ['x', '-c', 'case9', 'y'], ['-c'], ['--out_bus']]


def wrong_spec(d):
    dd = D(d)
    cmd = d.pick(['pf', 'opf'])
    return {'cmd': cmd, 'bad': d.i(0, len(WRONG) - 1), 'ops': draw_opts(dd, OUT, .2), 'first': d.b(), 'proc': d.chance(.03)}


def check_wrong(s):
    import pypower.main as main
    bad = WRONG[s['bad']]
    if len(bad) == 2 and bad[0].startswith('--p'):      # per-command spelling
        bad = [bad[0 if s['cmd'] == 'pf' else 1]]
    if bad[0].startswith('--pf_tol') or bad[0].startswith('--opf_flow'):
        bad = [WRONG[s['bad']][(0 if bad[0].startswith('--pf') else 1) if s['cmd'] == 'pf' else (1 if bad[0].startswith('--pf') else 0)]]
    ops = [a for o in s['ops'] for a in o[0]]
    tail = bad[-1] in ('-c', '--out_bus')
    args = bad + ops if s['first'] and not tail else ops + bad
    out, code = [], None
    names = ['runpf', 'runopf']
    with captured(out):
        try:
            getattr(main, s['cmd'])(list(args))
        except SystemExit as e:
            code = e.code
        except Exception as e:
            code = e
    expect(not isinstance(code, NameError), 'crash', lambda: '%s %s: %r' % (s['cmd'], args, code))
    expect(code not in (None, 0), 'wrong-accepted', lambda: '%s %s exits with %r' % (s['cmd'], args, code))
    return ['nontrivial', s['cmd'], 'bad-%d' % s['bad'], type(code).__name__]


# -------------------------------------------------------------------- a process
def proc_spec(d):
    dd = D(d)
    cmd = d.pick(['pf', 'opf'])
    return {'cmd': cmd, 'ops': [o for o in draw_opts(dd, PF if cmd == 'pf' else OPF, .3, True) if o[1]], 'case': d.pick(FAST[:4]), 'out_all': d.pick([-1, 0, 1]),
            'fail': d.chance(.4), 'bad': d.chance(.2)}


def check_proc(s):
    from pypower.api import runpf, runopf, ppoption
    import pypower.api as api
    import pypower
    vals = {o[1]: o[2] for o in s['ops']}
    args = ['-c', s['case']] + [a for o in s['ops'] for a in o[0]] + ['--out_all=%d' % s['out_all']]
    vals['OUT_ALL'] = s['out_all']
    if s['fail']:
        if s['cmd'] == 'pf':
            vals.update(PF_MAX_IT=0, PF_MAX_IT_FD=0, PF_MAX_IT_GS=0)
            args += ['--pf_max_it=0', '--pf_max_it_fd=0', '--pf_max_it_gs=0']
        else:
            vals.update(PDIPM_MAX_IT=1)
            args += ['--pdipm_max_it', '1']
    elif vals.get('PF_ALG') == 4:
        vals['PF_MAX_IT_GS'] = 60
        args += ['--pf_max_it_gs=60']
    if s['bad']:
        args += ['--verbose=high']
    root = os.path.dirname(os.path.dirname(os.path.abspath(pypower.__file__)))
    env = dict(os.environ, PYTHONPATH=root, PYTHONWARNINGS='ignore')
    p = subprocess.run([sys.executable, '-B', '-c', 'import sys; from pypower.main import %s as f; f()' % s['cmd']] + args, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd='/', timeout=120)
    if s['bad']:
        expect(p.returncode == 2, 'exit-status', 'exit %r for a wrong option value' % p.returncode)
        return ['nontrivial', 'bad']
    out = []
    ok = None
    with captured(out):
        try:
            r = (runpf if s['cmd'] == 'pf' else runopf)(getattr(api, s['case'])(), ppoption(**vals))
            ok = bool(r[1] if s['cmd'] == 'pf' else r['success'])
        except Exception:
            ok = False
    expect((p.returncode == 0) == ok, 'exit-status', lambda: '%s %s: success=%s, exit status %d\n%s' % (s['cmd'], args, ok, p.returncode, p.stderr.decode()[-300:]))
    if ok or p.returncode == 2:
        A = '\n'.join(x for x in steady(out[0]).split('\n') if 'arning' not in x)
        B = '\n'.join(x for x in steady(p.stdout.decode()).split('\n') if 'arning' not in x)
        expect(A.strip() == B.strip() or A.startswith(B[:len(A)]) and not ok, 'console', lambda: '%s %s\n%s' % (s['cmd'], args, diff(A, B)))
    return ['nontrivial', s['cmd'], 'ok' if ok else 'failed']


SUBS = [
    Sub('parse', gen.spec_strategy(parse_spec, size=400), check_parse, 600, 20000),
    Sub('pf', gen.spec_strategy(run_spec, 'pf'), check_run, 160, 4000),
    Sub('opf', gen.spec_strategy(run_spec, 'opf'), check_run, 80, 1600),
    Sub('wrong', gen.spec_strategy(wrong_spec, size=200), check_wrong, 120, 1000),
    Sub('process', gen.spec_strategy(proc_spec, size=200), check_proc, 24, 240),
]
