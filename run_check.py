"""Entry point: run_check.py <PROPERTY> [--replay FILE] [--scale X] [--sub NAME]."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if '/repo' not in sys.path:
    sys.path.insert(0, '/repo')
from vlib import core
if __name__ == '__main__':
    if sys.argv[1:] == ['--selftest']:
        import pypower.runpf, hypothesis
        print('ok: hypothesis %s, pypower from %s' % (hypothesis.__version__, pypower.runpf.__file__))
        sys.exit(0)
    sys.exit(core.main(sys.argv[1:]))
