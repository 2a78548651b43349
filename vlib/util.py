"""Small helpers shared by the checks."""
import math
import copy
import numpy as np
from vlib.core import Violation, expect


def opts(**k):
    from pypower.ppoption import ppoption
    return ppoption(VERBOSE=0, OUT_ALL=0, **k)


def close(a, b, tol, key, what='', rel=0.0):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, key, lambda: '%s: shapes %s vs %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    expect(bool(np.all(np.isfinite(a))), key, lambda: '%s: not finite: %s' % (what, a))
    d = np.abs(a - b)
    lim = tol + rel * np.abs(b)
    if not np.all(d <= lim):
        k = int(np.argmax(d - lim))
        raise Violation(key, '%s: got %r, expected %r (diff %.3g, tol %.3g) at %d' %
                        (what, a.flat[k], b.flat[k], d.flat[k], np.broadcast_to(lim, d.shape).flat[k], k))


def dense(M):
    return M.toarray() if hasattr(M, 'toarray') else np.asarray(M)


def wrapdeg(a):
    return (np.asarray(a) + 180.0) % 360.0 - 180.0


def snapshot(x):
    return copy.deepcopy(x)


def same(a, b):
    """Structural equality of nested dict/list/array data."""
    if hasattr(a, 'toarray') or hasattr(b, 'toarray'):
        return hasattr(a, 'toarray') and hasattr(b, 'toarray') and a.shape == b.shape and \
            np.array_equal(a.toarray(), b.toarray())
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


def voltages(L, bus):
    """Complex voltages of the energised buses from a result bus table (external order)."""
    r = np.asarray(bus)[L.rows]
    return r[:, 7] * np.exp(1j * math.pi / 180 * r[:, 8])


def base_labels(net, L):
    ls = ['n=%d' % L.n]
    ls += ['f:' + f for f in net['feats']]
    return ls


def gen_schedule_kept(L, g, tol=0.0):
    """All in-service units keep their P schedule, but for one unit per reference bus."""
    for k, b in zip(L.g, L.gb):
        if b not in L.refs:
            expect(abs(g[k, 1] - L.gen[k, 1]) <= tol, 'gen-moved',
                   'P of generator row %d (not at a reference bus) changed from %r to %r' % (k, L.gen[k, 1], g[k, 1]))
    for b in L.refs:
        moved = [k for k in L.gens_at[b] if abs(g[k, 1] - L.gen[k, 1]) > tol]
        expect(len(moved) <= 1, 'gen-moved', 'several generators moved at one reference bus: %s' % moved)


def saved(case, **k):
    """The case after a trip through a Python case file in a scratch folder."""
    import tempfile, shutil, os
    from pypower.savecase import savecase
    from pypower.loadcase import loadcase
    d = tempfile.mkdtemp(prefix='verif-case-')
    try:
        f = os.path.join(d, 'thecase.py')
        savecase(f, case, **k)
        return loadcase(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def printed(res, o=None, **k):
    """Text of printpf for a results case."""
    import io
    from pypower.printpf import printpf
    from pypower.ppoption import ppoption
    fd = io.StringIO()
    printpf(res, fd, ppoption(o, **k) if o is not None else ppoption(**k))
    return fd.getvalue()
