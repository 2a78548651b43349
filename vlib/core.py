"""Driver shared by all checks.

A check module (checks/pNN.py) defines

    ID, RULE                      property id, non-triviality rule (text)
    SUBS = [Sub(name, strategy, check, quick, thorough), ...]

`strategy` is a Hypothesis strategy whose values ("specs") are plain JSON data,
`check(spec)` is a deterministic function of the spec and of the code in /repo.
It raises Violation (or any other exception) when the property is broken, and
returns a list of labels otherwise; the label 'nontrivial' marks the case as
non-trivial by the module's RULE.

Each Sub is split into a fixed number of shards; every shard runs Hypothesis in
a forked process with a seed derived from VERIF_SEED.  Counts, not clocks, bound
the search.  The first failing spec seen in a shard is saved at once and then
replaced by smaller ones while Hypothesis shrinks; the parent gives shrinking a
grace period and reports the smallest failing spec it has.
"""
import sys, os, json, time, hashlib, traceback, importlib, signal, zlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
NSHARDS = 8
CASE_CPU_LIMIT = 150.0      # CPU seconds for one case: beyond it the code does not terminate
SHRINK_GRACE = 40.0
HARD_LIMIT = 840.0


def _import_hypothesis():
    # The repository's own virtualenv has no hypothesis: use the one of the
    # verification venv, appended so that numpy/scipy stay the project's own.
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    import numpy, scipy, scipy.sparse, scipy.sparse.linalg, scipy.optimize, scipy.io  # noqa
    for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        if os.path.isdir(os.path.join(p, 'hypothesis')):
            sys.path.append(p)
            import hypothesis  # noqa
            return
    raise SystemExit('hypothesis is not installed')


_import_hypothesis()
import numpy as np                                        # noqa: E402
import hypothesis                                         # noqa: E402
from hypothesis import given, settings, Phase, HealthCheck, Verbosity   # noqa: E402
import hypothesis.errors as herr                          # noqa: E402
import warnings                                           # noqa: E402

# Never trust a stale .pyc of the code under test: compile it from source.
sys.pycache_prefix = '/nonexistent-pycache'
sys.dont_write_bytecode = True


class Violation(AssertionError):
    """The property is broken. `key` names the kind of breakage."""
    def __init__(self, key, msg=''):
        super().__init__('%s: %s' % (key, msg))
        self.key = key


class CaseTimeout(BaseException):
    pass


def expect(cond, key, msg=''):
    if not cond:
        raise Violation(key, msg() if callable(msg) else msg)


class Sub(object):
    def __init__(self, name, strategy, check, quick, thorough, limit=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.limit = limit


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(',', ':'))


def seed_for(*parts):
    return zlib.crc32('/'.join(str(p) for p in parts).encode()) & 0x7fffffff


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, spec):
    """Run one case with warnings silenced and a CPU limit."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, sub.limit or CASE_CPU_LIMIT)
            try:
                return sub.check(json.loads(canon(spec)))
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)


def describe(e):
    if isinstance(e, CaseTimeout):
        return 'timeout', 'the code did not terminate within the CPU limit'
    if isinstance(e, Violation):
        return e.key, str(e)
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if '/repo/' in f.filename]
    f = loc[-1] if loc else (tb[-1] if tb else None)
    where = '%s:%s' % (os.path.basename(f.filename), f.name) if f else '?'
    return 'exception:%s@%s' % (type(e).__name__, where), '%s: %s at %s' % (type(e).__name__, e, where)


def shard(sub, n, seed, outdir, tag):
    """Body of one worker process."""
    st = {'evals': 0, 'labels': {}, 'hashes': [], 'samples': [], 'fail': None}
    seen = set()

    def save_fail(spec, e):
        key, msg = describe(e)
        rec = {'sub': sub.name, 'key': key, 'message': msg[:2000], 'spec': spec,
               'traceback': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
        tmp = os.path.join(outdir, tag + '.fail.tmp')
        with open(tmp, 'w') as f:
            json.dump(rec, f)
        os.replace(tmp, os.path.join(outdir, tag + '.fail'))
        st['fail'] = rec

    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet,
              phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck))
    @hypothesis.seed(seed)
    @given(sub.strategy)
    def prop(spec):
        try:
            labels = run_case(sub, spec)
        except (herr.UnsatisfiedAssumption, herr.StopTest):
            raise
        except CaseTimeout as e:
            save_fail(spec, e)
            os._exit(0)          # no point in shrinking a hang
        except Exception as e:
            save_fail(spec, e)
            raise
        if st['fail'] is None:
            st['evals'] += 1
            for l in labels or ():
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if labels and 'nontrivial' in labels:
                c = canon(spec)
                h = hashlib.sha1(c.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(st['samples']) < 2 and len(c) < 6000:
                        st['samples'].append(spec)
    try:
        prop()
    except BaseException as e:
        if st['fail'] is None:
            # not raised by a case: a fault of the harness
            with open(os.path.join(outdir, tag + '.err'), 'w') as f:
                f.write(''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    st['hashes'] = sorted(seen)
    tmp = os.path.join(outdir, tag + '.tmp')
    with open(tmp, 'w') as f:
        json.dump(st, f)
    os.replace(tmp, os.path.join(outdir, tag + '.done'))


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k.get('property') == pid and not k.get('fixed')]


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    sub = [s for s in mod.SUBS if s.name == rec['sub']][0]
    try:
        labels = run_case(sub, rec['spec'])
    except (Exception, CaseTimeout) as e:
        key, msg = describe(e)
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        print('  %s' % msg)
        return 1
    print('held: labels=%s' % sorted(set(labels or ())))
    return 0


def main(argv):
    t0 = time.time()
    pid = argv[0].upper()
    args = argv[1:]

    def opt(name, default=None):
        return args[args.index(name) + 1] if name in args else default
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = opt('--tier')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scale = float(opt('--scale', '1'))
    only = opt('--sub')
    mod = importlib.import_module('checks.' + pid.lower())
    if '--replay' in args:
        return replay(mod, opt('--replay'))

    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(EVID, 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return _main(mod, pid, tier, seed, scale, only, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main(mod, pid, tier, seed, scale, only, work, t0):
    # 1. known findings: replay each one
    known_lines = []
    for k in load_known(pid):
        sub = [s for s in mod.SUBS if s.name == k['sub']][0]
        try:
            run_case(sub, k['spec'])
        except (Exception, CaseTimeout) as e:
            key, _ = describe(e)
            if key == k['key']:
                known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # 2. the search
    jobs = []
    for s in mod.SUBS:
        if only and s.name not in only.split(','):
            continue
        n = s.thorough if tier == 'thorough' else s.quick
        n = max(1, int(n * scale))
        k = NSHARDS if n >= NSHARDS else n
        for i in range(k):
            m = n // k + (1 if i < n % k else 0)
            jobs.append((s, m, seed_for(seed, pid, s.name, i), '%s.%d' % (s.name, i), i))
    # interleave subs: most expensive first is unknown, so by shard index
    jobs.sort(key=lambda j: j[4])
    tags = [j[3] for j in jobs]
    running = {}
    pending = list(jobs)
    procs = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    sys.stdout.flush()
    fail_at = None
    timed_out = False
    while pending or running:
        while pending and len(running) < procs and fail_at is None:
            j = pending.pop(0)
            pid_ = os.fork()
            if pid_ == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    dn = os.open(os.devnull, os.O_RDWR)
                    os.dup2(dn, 0)
                    os.dup2(dn, 1)
                    if not os.environ.get('VERIF_DEBUG'):
                        os.dup2(dn, 2)
                    wd = os.path.join(work, 'cwd-' + j[3])
                    os.makedirs(wd, exist_ok=True)
                    os.chdir(wd)
                    shard(j[0], j[1], j[2], work, j[3])
                except BaseException:
                    code = 3
                    try:
                        with open(os.path.join(work, j[3] + '.err'), 'w') as f:
                            f.write(traceback.format_exc())
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            running[pid_] = j[3]
        try:
            p, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            p = 0
            running = {}
        if p:
            running.pop(p, None)
        else:
            time.sleep(0.02)
        if fail_at is None and any(os.path.exists(os.path.join(work, t + '.fail')) for t in tags):
            fail_at = time.time()
            pending = []
        now = time.time()
        if (fail_at is not None and now - fail_at > SHRINK_GRACE) or now - t0 > HARD_LIMIT:
            if now - t0 > HARD_LIMIT and fail_at is None:
                timed_out = True
            for q in list(running):
                try:
                    os.kill(q, signal.SIGKILL)
                except OSError:
                    pass
            for q in list(running):
                try:
                    os.waitpid(q, 0)
                except OSError:
                    pass
            running = {}
            pending = []
        if fail_at is not None and running:
            # stop shards which have not failed themselves
            for q, t in list(running.items()):
                if not os.path.exists(os.path.join(work, t + '.fail')) and now - fail_at > 5:
                    try:
                        os.kill(q, signal.SIGKILL)
                    except OSError:
                        pass

    # 3. collect
    evals, labels, hashes, samples, fails, errs, missing = 0, {}, set(), [], [], [], []
    persub = {}
    for j in jobs:
        t = j[3]
        d = os.path.join(work, t + '.done')
        if os.path.exists(os.path.join(work, t + '.fail')):
            with open(os.path.join(work, t + '.fail')) as f:
                fails.append(json.load(f))
        if os.path.exists(os.path.join(work, t + '.err')):
            with open(os.path.join(work, t + '.err')) as f:
                errs.append(f.read())
        if os.path.exists(d):
            with open(d) as f:
                s = json.load(f)
            evals += s['evals']
            ps = persub.setdefault(j[0].name, {'evaluations': 0, 'nontrivial': 0})
            ps['evaluations'] += s['evals']
            ps['nontrivial'] += len(s['hashes'])
            for k, v in s['labels'].items():
                kk = j[0].name + '/' + k
                labels[kk] = labels.get(kk, 0) + v
            hashes.update(j[0].name + h for h in s['hashes'])
            if s['samples'] and sum(1 for x in samples if x['sub'] == j[0].name) < 2:
                samples.append({'sub': j[0].name, 'spec': s['samples'][0]})
        else:
            missing.append(t)

    status = 0
    replay_path = None
    if fails:
        best = min(fails, key=lambda r: len(canon(r['spec'])))
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        replay_path = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha1(canon(best['spec']).encode()).hexdigest()[:10]))
        with open(replay_path, 'w') as f:
            json.dump(best, f, indent=1)
        status = 1
    elif errs or missing or timed_out:
        status = 2

    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': mod.RULE,
                       'samples': samples, 'labels': dict(sorted(labels.items())), 'per_sub': persub},
          'wall_s': round(time.time() - t0, 2)}
    if status == 1:
        ev['violation'] = {'key': fails[0]['key'], 'replay': replay_path}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for l in known_lines:
        print(l)
    print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs' %
          (pid, tier, seed, evals, len(hashes), time.time() - t0))
    if status == 1:
        print('  failed: %s' % best['message'].replace('\n', ' ')[:600])
        print('VIOLATION property=%s replay=%s' % (pid, replay_path))
    elif status == 2:
        sys.stderr.write('harness error: timed_out=%s missing=%s\n%s\n' % (timed_out, missing, '\n'.join(errs[:2])))
    return status
