"""C34: the package and every module of it can be imported on its own, in any order and without optional libraries, gives what it names and leaves the process alone"""
import json
import os
import subprocess
import sys

from vlib.harness import Check, REPO

CHECK = Check('C34', 'A case is a fresh interpreter that imports modules in a random order, perhaps with optional libraries missing; distinct by the order; '
                     'non-trivial if at least two oracle evaluations took place')

PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vlib', 'import_probe.py')
OPTIONAL = ['yaml', 'toml', 'ujson', 'requests', 'cassandra', 'opentracing']


def modules():
    out = []
    root = os.path.join(REPO, 'satella')
    for base, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for f in files:
            if f.endswith('.py'):
                name = os.path.relpath(os.path.join(base, f), REPO)[:-3].replace(os.sep, '.')
                out.append(name[:-len('.__init__')] if name.endswith('.__init__') else name)
    return sorted(out)


def probe(order, blocked=(), cwd='/'):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    p = subprocess.run([sys.executable, PROBE, REPO], input=json.dumps({'order': order, 'blocked': list(blocked)}), env=env, cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=120)
    return p


REFERENCE = {}


def reference(mods):
    if not REFERENCE:
        p = probe(['satella.coding'] + [m for m in mods if m != 'satella.coding'])
        REFERENCE.update(json.loads(p.stdout.splitlines()[-1]))
    return REFERENCE


def examine(c, p, order, mods, optional=False):
    """judge what a fresh interpreter said"""
    c.expect(p.returncode == 0, 'interpreter-ends', rc=p.returncode, order=order[:4], err=p.stderr[-600:])
    if p.returncode:
        return None
    lines = p.stdout.splitlines()
    c.expect(len(lines) == 1, 'importing-is-silent', lines=lines[:3], order=order[:4])
    c.eq(p.stderr, '', 'importing-is-silent', order=order[:4])
    said = json.loads(lines[-1])
    if not optional:
        c.eq(said['failed'], {}, 'module-imports', order=order[:6])
    c.eq(said['missing'], [], 'names-in-all-exist', order=order[:6])
    c.eq(said['doubled'], [], 'names-in-all-once', order=order[:6])
    c.eq(said['changed'], [], 'importing-leaves-the-process-alone', order=order[:6])
    c.count('modules imported', len(order))
    c.count('names checked', said['names'])
    return said


@CHECK.scenario(quick=24, thorough=1500)
def order(c):
    """a fresh interpreter, a random module first, then perhaps others in a random order"""
    rng = c.rng
    mods = modules()
    first = rng.choice(mods)
    rest = [m for m in mods if m != first]
    rng.shuffle(rest)
    if rng.random() < 0.5:
        rest = rest[:rng.randrange(0, 8)]
    sequence = [first] + rest
    c.rec(sequence)
    said = examine(c, probe(sequence), sequence, mods)
    if said is None:
        return
    # the same things are found whatever came first
    want = reference(mods)
    for m in sequence:
        c.eq(said['exports'].get(m), want['exports'].get(m), 'same-contents-in-any-order', module=m, order=sequence[:4])


@CHECK.scenario(quick=8, thorough=400)
def packages(c):
    """what a user begins with: a package, a name out of it"""
    rng = c.rng
    mods = modules()
    pk = [m for m in mods if os.path.isdir(os.path.join(REPO, *m.split('.')))]
    sequence = rng.sample(pk, rng.randrange(1, 4))
    c.rec(sequence)
    examine(c, probe(sequence), sequence, mods)


@CHECK.scenario(quick=12, thorough=600)
def without(c):
    """optional libraries are missing"""
    rng = c.rng
    mods = modules()
    blocked = rng.sample(OPTIONAL, rng.randrange(1, len(OPTIONAL) + 1))
    sequence = list(mods)
    rng.shuffle(sequence)
    c.rec((sorted(blocked), sequence))
    said = examine(c, probe(sequence, blocked), sequence, mods, optional=True)
    if said is None:
        return
    for m, why in said['failed'].items():
        # the only modules to miss anything are those about the missing library
        c.expect(any(m.startswith(a) for b in blocked for a in NEEDS.get(b, ())), 'imports-without-optional', module=m, why=why, blocked=blocked)
    for m, names in said['exports'].items():
        gone = set(reference(mods)['exports'].get(m, {})) - set(names)
        may = {n for b in blocked for n in GONE.get(b, ())}
        c.expect(gone <= may, 'only-optional-names-missing', module=m, gone=sorted(gone - may), blocked=blocked)


NEEDS = {}
GONE = {'yaml': ['YAMLSource'], 'toml': ['TOMLSource'], 'requests': ['HTTPJSONSource']}


if __name__ == '__main__':
    CHECK.main()
