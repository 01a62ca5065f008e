"""tools/cov.py [C01 ...]: lines of satella's functions that the quick checks do not reach"""
import glob
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def lines_of(code, top=True):
    out = set()
    if not top:
        out |= {ln for _, _, ln in code.co_lines() if ln is not None and ln != code.co_firstlineno}
    for k in code.co_consts:
        if hasattr(k, 'co_lines'):
            out |= lines_of(k, False)
    return out


def main():
    props = sys.argv[1:] or [os.path.basename(p)[:-3].upper() for p in sorted(glob.glob(VERIF + '/checks/c[0-9]*.py'))]
    with tempfile.TemporaryDirectory() as tmp:
        for p in props:
            subprocess.run(['bash', 'run.sh', p, 'quick'], cwd=VERIF, env=dict(os.environ, VERIF_COV=tmp), stdout=subprocess.DEVNULL)
        hits = {}
        for fn in glob.glob(tmp + '/*.cov'):
            for line in open(fn):
                _, name, n = line.strip().split(':')
                hits.setdefault(name, set()).add(int(n))
    total = missed = 0
    for root, _, files in sorted(os.walk(REPO + '/satella')):
        for f in sorted(files):
            if f.endswith('.py'):
                path = os.path.join(root, f)
                want = lines_of(compile(open(path).read(), path, 'exec'))
                miss = sorted(want - hits.get(path, set()))
                total += len(want)
                missed += len(miss)
                if miss:
                    print('%-70s %3d%% missed %s' % (path[len(REPO) + 1:], 100 - 100 * len(miss) // max(1, len(want)), miss[:40]))
    print('lines', total, 'missed', missed)


main()
