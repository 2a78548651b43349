"""P25  User callbacks run in order at each stage (model-based, against a plain list)."""
import os
import io
import numpy as np
from vlib.core import Sub, Violation, expect
from vlib import gen, acopf
from vlib.util import opts

ID = 'P25'
RULE = ('random histories of add_userfcn / remove_userfcn / run_userfcn over all stages with a small set of functions (so that functions are '
        'registered repeatedly), then the drivers; oracle: a plain list per stage; non-trivial = a stage with at least two callbacks that is run')
STAGES = ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']


def make(d):
    ops = []
    for _ in range(d.i(1, 25)):
        e = d.cells(10)
        op = e.pick(['add', 'add', 'add', 'remove', 'run'])
        st = STAGES[e.i_(0, 4)] if e.chance(.5) else STAGES[e.i_(0, 1)]
        ops.append({'op': op, 'stage': st, 'fn': e.i_(0, 3), 'multi': e.chance(.6),
                    'args': e.pick([None, None, {'a': 1}, [1, 2], 'text', 3.5, 0, []])})
    ops += [{'op': 'run', 'stage': s, 'fn': 0, 'multi': True, 'args': None} for s in STAGES]
    return {'ops': ops, 'prior': d.chance(.2)}


def check(spec):
    from pypower.add_userfcn import add_userfcn
    from pypower.remove_userfcn import remove_userfcn
    from pypower.run_userfcn import run_userfcn
    log = []

    def mk(i):
        def fn(*a):
            log.append((i, a[1:]))
            return a[0] + (i,)          # the data passed on to the next callback
        fn.__name__ = 'f%d' % i
        return fn
    fns = [mk(i) for i in range(4)]
    ppc = {'userfcn': {}} if spec['prior'] else {}
    model = {s: [] for s in STAGES}
    nt = False
    for o in spec['ops']:
        s, f = o['stage'], o['fn']
        if o['op'] == 'add':
            have = any(i == f for i, a in model[s])
            if have and not o['multi']:
                r = add_userfcn(ppc, s, fns[f], o['args']) if o['args'] is not None else add_userfcn(ppc, s, fns[f])
            else:
                r = add_userfcn(ppc, s, fns[f], o['args'], True) if o['multi'] else add_userfcn(ppc, s, fns[f], o['args'])
                model[s].append((f, o['args']))
            expect(r is ppc, 'add-returns', 'add_userfcn does not return the case')
        elif o['op'] == 'remove':
            if 'userfcn' not in ppc or s not in ppc['userfcn']:
                continue
            r = remove_userfcn(ppc, s, fns[f])
            expect(r is ppc, 'remove-returns', 'remove_userfcn does not return the case')
            for k in range(len(model[s]) - 1, -1, -1):
                if model[s][k][0] == f:
                    del model[s][k]
                    break
        else:
            del log[:]
            x0 = ('data',)
            extra = ('fd', 'third') if s in ('printpf', 'savecase') else ()
            out = run_userfcn(ppc.get('userfcn', {}), s, x0, *extra)
            exp = [(f, extra + ([] if a is None else a,)) for f, a in model[s]]
            expect(log == exp, 'run-order', 'stage %s ran %s, expected %s' % (s, log, exp))
            expect(out == x0 + tuple(f for f, a in model[s]), 'run-result', 'stage %s returned %s' % (s, out))
            nt = nt or len(model[s]) > 1
        for t in STAGES:
            got = [(fns.index(c['fcn']), c.get('args')) for c in ppc.get('userfcn', {}).get(t, [])]
            expect(got == [(f, a) for f, a in model[t]], 'list', 'stage %s holds %s, expected %s' % (t, got, model[t]))
    return ['ops=%d' % len(spec['ops'])] + (['nontrivial'] if nt else [])


def make_drv(d):
    net = gen.draw_net(d, nb_max=5, forbid=('multiref',))
    acopf.add_opf(d, net, quad_only=True, rates=0)
    e = d.cells(40)
    regs = [[STAGES[e.i_(0, 4)], e.i_(0, 2), e.pick([None, 7, [1]])] for _ in range(e.i_(1, 8))]
    return {'net': net, 'drv': e.pick(['runpf', 'rundcpf', 'runopf', 'rundcopf', 'savecase']), 'regs': regs, 'out': e.chance(.7)}


def check_drv(spec):
    from pypower.add_userfcn import add_userfcn
    from pypower.api import runpf, rundcpf, runopf, rundcopf, savecase
    log = []
    ppc = gen.arr(spec['net']['ppc'])
    n = spec['net']
    kinds = {}

    def mk(i, stage):
        def fn(*a):
            log.append((stage, i, a[-1]))
            x = a[0]
            if stage == 'ext2int':
                expect(x['order']['state'] == 'i', 'stage-data', 'ext2int callback without internal data')
            elif stage == 'formulation':
                expect(x.getN('var') > 0 and x.get_ppc()['order']['state'] == 'i', 'stage-data', 'formulation callback without a model')
            elif stage == 'int2ext':
                expect(x['order']['state'] == 'i', 'stage-data', 'int2ext callback after conversion')
            elif stage == 'printpf':
                expect(x['order']['state'] == 'e', 'stage-data', 'printpf callback without results')
                a[1].write('<<printpf %d>>\n' % i)
            else:
                expect(hasattr(a[1], 'write') and isinstance(a[2], str), 'stage-data', 'savecase callback arguments')
            return x
        return fn
    fns = {(s, i): mk(i, s) for s in STAGES for i in range(3)}
    for s, i, a in spec['regs']:
        add_userfcn(ppc, s, fns[s, i], a, True)
    want = {'runpf': ['ext2int', 'int2ext'], 'rundcpf': ['ext2int', 'int2ext'], 'runopf': ['ext2int', 'formulation', 'int2ext'],
            'rundcopf': ['ext2int', 'formulation', 'int2ext'], 'savecase': ['savecase']}[spec['drv']]
    fn = os.path.abspath('cb_out.txt')
    if os.path.exists(fn):
        os.remove(fn)
    if spec['drv'] == 'savecase':
        savecase(os.path.abspath('cb_case.py'), ppc)
    else:
        from pypower.ppoption import ppoption
        opt = ppoption(VERBOSE=0, OUT_ALL=-1 if spec['out'] else 0)
        if spec['out']:
            want = want + ['printpf']
        {'runpf': runpf, 'rundcpf': rundcpf, 'runopf': runopf, 'rundcopf': rundcopf}[spec['drv']](ppc, opt, fn if spec['out'] else '')
    exp = [(s, i, [] if a is None else a) for st in want for s, i, a in spec['regs'] if s == st]
    expect(log == exp, 'driver-stages', '%s ran callbacks %s, expected %s' % (spec['drv'], log, exp))
    return [spec['drv']] + (['nontrivial'] if len(exp) > 1 else [])


SUBS = [Sub('history', gen.spec_strategy(make, size=500), check, 2400, 40000),
        Sub('drivers', gen.spec_strategy(make_drv), check_drv, 320, 4000)]
