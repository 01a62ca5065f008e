"""
python tools/mkseed.py SPEC.py [--notest]
SPEC defines: id, prop, needs, breaks, edits = [(path, old, new), ...], demo (python source; exits nonzero if broken)
Builds /verif/seeded/<id>, and confirms everything that can be confirmed in a scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)
W = tempfile.mkdtemp(prefix='seed-')
R = os.path.join(W, 'repo')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8')
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    for path, old, new in ns['edits']:
        p = os.path.join(R, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', R, 'diff'], text=True)
    D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', ns['id'])
    os.makedirs(D, exist_ok=True)
    open(os.path.join(D, 'patch.diff'), 'w').write(diff)
    open(os.path.join(D, 'demo.py'), 'w').write(ns['demo'].lstrip())
    open(os.path.join(D, 'demo.sh'), 'w').write(
        '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
        'exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']),
              open(os.path.join(D, 'meta.json'), 'w'), indent=1)
    for cwd, want in (('/repo', 0), (R, 1)):
        r = subprocess.run(['bash', os.path.join(D, 'demo.sh')], cwd=cwd, capture_output=True, text=True)
        print('demo in', cwd, r.returncode, (r.stdout + r.stderr).strip()[-300:])
        assert bool(r.returncode) == bool(want)
    # blame: changed lines have to be from the base commit
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    for path, old, new in ns['edits']:
        src = open(os.path.join('/repo', path)).read()
        at = src[:src.index(old)].count('\n') + 1
        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-L', '%d,+%d' % (at, old.rstrip('\n').count('\n') + 1),
                                      '--', path], text=True)
        mine = [x for x in bl.splitlines() if base[:39] not in x]
        if mine:
            print('NOTE lines not from base:', len(mine), mine[:3])
    if '--notest' not in sys.argv:
        env = ENV
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        for args in (['-p', 'no:xdist', 'tests/test_files.py', 'tests/test_configuration'],
                     ['-n', '8', '--dist', 'loadfile', '--ignore=tests/test_files.py', '--ignore=tests/test_configuration', 'tests']):
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120',
                                '--continue-on-collection-errors', '-rf', '--tb=no'] + args, cwd=R, env=env,
                               capture_output=True, text=True)
            print('\n'.join(l for l in r.stdout.splitlines() if 'FAILED' in l or 'ERROR' in l or 'passed' in l)[-1500:])
finally:
    shutil.rmtree(W)
