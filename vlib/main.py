import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[0] = VERIF
sys.path.insert(0, REPO)

from vlib import vsched  # noqa
vsched.install()
if os.environ.get('VERIF_COV') and '--worker' in sys.argv:
    from vlib import linecov
    linecov.start(REPO)
import importlib  # noqa

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module('checks.%s' % (prop.lower(),))
    from vlib import harness
    rc = harness.main(mod.CHECK, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc or 0)
