"""
tools/mutate.py map                     - finds out which scenarios execute which line -> /tmp/mut/map.json
tools/mutate.py run FRACTION SEED [PATH-PREFIX...]   - tries a sample of small changes of satella, each in a scratch copy of the
    repository, against the scenarios that execute the line changed. Those that no check noticed are listed in /tmp/mut/survivors.txt
"""
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = '/tmp/mut'
os.makedirs(OUT, exist_ok=True)
KINDS = os.environ.get('MUT_KINDS', '').split()
SKIP = ('os/daemon.py', 'os/signals.py', 'coding/environment.py', 'warnings.py', 'cassandra/common.py')


def build_map():
    props = [os.path.basename(p)[:-3].upper() for p in sorted(glob.glob(VERIF + '/checks/c[0-9]*.py'))]
    hits = {}
    for p in props:
        with tempfile.TemporaryDirectory() as tmp:
            subprocess.run(['bash', 'run.sh', p, 'quick'], cwd=VERIF, env=dict(os.environ, VERIF_COV=tmp, VERIF_SCALE='1'),
                           stdout=subprocess.DEVNULL)
            for fn in glob.glob(tmp + '/*.cov'):
                for line in open(fn):
                    scen, name, n = line.strip().split(':')
                    hits.setdefault(os.path.relpath(name, '/repo'), {}).setdefault(n, {}).setdefault(p, set()).add(scen)
        print(p, flush=True)
    for f in hits.values():
        for n in f.values():
            for p in n:
                n[p] = sorted(n[p])
    json.dump(hits, open(OUT + '/map.json', 'w'))


SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
        ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.And: ast.Or, ast.Or: ast.And}


def mutations(tree):
    """yields (lineno, description, apply-to-a-copy function identified by the path)"""
    out = []

    def walk(node, path, skip):
        for field, value in ast.iter_fields(node):
            if field in ('annotation', 'returns', 'type_comment', 'decorator_list') and field != 'decorator_list':
                continue
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.AST):
                        visit(v, path + [(field, i)], skip, node, field)
            elif isinstance(value, ast.AST):
                visit(value, path + [(field, None)], skip, node, field)

    def add(node, path, what, fn):
        out.append((node.lineno, what, path, fn))

    def visit(node, path, skip, parent, field):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in ('__repr__',):
            return
        if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ('__slots__', '__all__', '__version__') for t in node.targets):
            return
        if isinstance(node, ast.Raise):
            if field in ('body', 'orelse', 'finalbody'):
                add(node, path, 'drop', lambda n: ast.copy_location(ast.Pass(), n))
            if isinstance(node.exc, ast.Call):
                def f(n):
                    n.exc.func = ast.copy_location(ast.Name('RuntimeError', ast.Load()), n.exc.func)
                    return n
                add(node, path, 'otherexc', f)
            return
        if isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            if 'log' in ast.unparse(node).split('.')[0].lower() or 'warn' in ast.unparse(node)[:14]:
                return
            if isinstance(node.value, ast.Yield):
                pass
            else:
                add(node, path, 'drop', lambda n: ast.copy_location(ast.Pass(), n))
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)) and not isinstance(parent, (ast.Module, ast.ClassDef)):
            add(node, path, 'drop', lambda n: ast.copy_location(ast.Pass(), n))
        if isinstance(node, ast.AugAssign) and type(node.op) in SWAP:
            def f(n):
                n.op = SWAP[type(n.op)]()
                return n
            add(node, path, 'augop', f)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)) and not (isinstance(node.test, ast.Constant)):
            def f(n):
                n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
                return n
            if not isinstance(node.test, ast.Compare) or len(node.test.ops) != 1:
                add(node, path, 'negate', f)
            if isinstance(node, ast.If):
                def g(n):
                    n.test = ast.copy_location(ast.Constant(True), n.test)
                    return n

                def h(n):
                    n.test = ast.copy_location(ast.Constant(False), n.test)
                    return n
                add(node, path, 'always', g)
                add(node, path, 'never', h)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            def f(n):
                n.ops = [SWAP[type(n.ops[0])]()]
                return n
            add(node, path, 'cmp', f)
        if isinstance(node, ast.BoolOp):
            def f(n):
                n.op = SWAP[type(n.op)]()
                return n
            add(node, path, 'boolop', f)
            for i in range(len(node.values)):
                def f(n, i=i):
                    v = n.values[:i] + n.values[i + 1:]
                    return v[0] if len(v) == 1 else ast.copy_location(ast.BoolOp(n.op, v), n)
                add(node, path, 'operand%d' % i, f)
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP and not isinstance(node.left, (ast.Constant,)) or \
                isinstance(node, ast.BinOp) and isinstance(node.left, ast.Constant) and not isinstance(node.left.value, str) and type(node.op) in SWAP:
            def f(n):
                n.op = SWAP[type(n.op)]()
                return n
            add(node, path, 'binop', f)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, path, 'not', lambda n: n.operand)
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                add(node, path, 'const', lambda n: ast.copy_location(ast.Constant(not n.value), n))
            elif isinstance(node.value, (int, float)):
                add(node, path, 'const', lambda n: ast.copy_location(ast.Constant(n.value + 1), n))
        if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            def f(n):
                n.value = None
                return n
            add(node, path, 'retnone', f)
        if isinstance(node, ast.With):
            add(node, path, 'unwith', lambda n: ast.copy_location(ast.If(ast.Constant(True), n.body, []), n)
                if not n.items[0].optional_vars else None)
        if isinstance(node, ast.Try):
            if node.finalbody and not node.handlers:
                add(node, path, 'nofinally-on-error', lambda n: ast.copy_location(ast.If(ast.Constant(True), n.body + n.finalbody, []), n))
            if node.handlers:
                add(node, path, 'notry', lambda n: ast.copy_location(ast.If(ast.Constant(True), n.body + n.orelse + n.finalbody, []), n))
        if isinstance(node, ast.ExceptHandler) and node.type is not None and ast.unparse(node.type) not in ('Exception', 'BaseException'):
            def f(n):
                n.type = ast.copy_location(ast.Name('Exception', ast.Load()), n.type)
                return n
            add(node, path, 'broad', f)
        if isinstance(node, ast.ExceptHandler) and node.type is not None and ast.unparse(node.type) in ('Exception', 'BaseException'):
            def f(n):
                n.type = ast.copy_location(ast.Name({'Exception': 'ValueError', 'BaseException': 'Exception'}[ast.unparse(n.type)], ast.Load()), n.type)
                return n
            add(node, path, 'narrow', f)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            if isinstance(node.ops[0], ast.Is):
                add(node, path, 'falsy', lambda n: ast.copy_location(ast.UnaryOp(ast.Not(), n.left), n))
            elif isinstance(node.ops[0], ast.IsNot):
                add(node, path, 'truthy', lambda n: n.left)
        if isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], (ast.Starred, ast.GeneratorExp)) and \
                ast.unparse(node.func) in ('list', 'tuple', 'set', 'dict', 'copy.copy', 'copy.deepcopy', 'iter', 'int', 'float', 'str', 'sorted', 'frozenset', 'bytes'):
            add(node, path, 'unwrap', lambda n: n.args[0])
        if isinstance(node, ast.Call) and ast.unparse(node.func) in ('min', 'max', 'any', 'all', 'copy.copy', 'copy.deepcopy'):
            def f(n):
                n.func = ast.parse({'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'copy.copy': 'copy.deepcopy',
                                    'copy.deepcopy': 'copy.copy'}[ast.unparse(n.func)], mode='eval').body
                return n
            add(node, path, 'swapfun', f)
        if isinstance(node, (ast.FunctionDef, ast.With, ast.If, ast.For, ast.While, ast.Try)):
            for i in range(len(node.body) - 1):
                a, b = node.body[i:i + 2]
                simple = (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)
                if isinstance(a, simple) and isinstance(b, simple) and not (isinstance(a, ast.Expr) and isinstance(a.value, ast.Constant)):
                    def f(n, i=i):
                        n.body[i], n.body[i + 1] = n.body[i + 1], n.body[i]
                        return n
                    add(a, path, 'swapstmt%d' % i, f)
        if isinstance(node, (ast.Break,)):
            add(node, path, 'continue', lambda n: ast.copy_location(ast.Continue(), n))
        if isinstance(node, (ast.Continue,)):
            add(node, path, 'break', lambda n: ast.copy_location(ast.Break(), n))
        if isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                def f(n, i=i):
                    del n.keywords[i]
                    return n
                add(node, path, 'nokw%d' % i, f)
            if len(node.args) > 1 and not any(isinstance(a, ast.Starred) for a in node.args):
                def f(n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                    return n
                add(node, path, 'swapargs', f)
            if len(node.args) > 1:
                def f(n):
                    del n.args[-1]
                    return n
                add(node, path, 'noarg', f)
        if isinstance(node, (ast.FunctionDef,)) and node.decorator_list and \
                not any(ast.unparse(d) in ('property', 'staticmethod', 'classmethod', 'abstractmethod', 'functools.wraps(fun)')
                        for d in node.decorator_list):
            for i in range(len(node.decorator_list)):
                def f(n, i=i):
                    del n.decorator_list[i]
                    return n
                add(node.body[-1] if not isinstance(node.body[0], ast.Expr) else node.body[-1], path, 'nodeco%d' % i, f)
        if isinstance(node, ast.FunctionDef) and node.name == '__exit__' and len(node.args.args) > 1:
            def f(n):
                n.body = [ast.If(ast.parse('%s is None' % n.args.args[1].arg, mode='eval').body, n.body, [])]
                return n
            add(node.body[-1], path, 'exitok', f)
        if isinstance(node, ast.With) and len(node.items) == 1 and not node.items[0].optional_vars and 'log' not in ast.unparse(node.items[0]):
            def f(n):
                t = ast.parse('_cm = 0\n_cm.__enter__()\n_ok = True\ntry:\n    pass\nexcept BaseException:\n    _ok = False\n    raise\n'
                              'finally:\n    if _ok: _cm.__exit__(None, None, None)').body
                t[0].value = n.items[0].context_expr
                t[3].body = n.body
                return ast.If(ast.Constant(True), t, [])
            add(node, path, 'withok', f)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            def f(n):
                n.ops = [{ast.Eq: ast.Is, ast.NotEq: ast.IsNot, ast.Is: ast.Eq, ast.IsNot: ast.NotEq}[type(n.ops[0])]()]
                return n
            if isinstance(node.ops[0], (ast.Eq, ast.NotEq)) and not isinstance(node.comparators[0], ast.Constant) or \
                    isinstance(node.ops[0], (ast.Is, ast.IsNot)) and not isinstance(node.comparators[0], ast.Constant):
                add(node, path, 'identity', f)
        if isinstance(node, ast.Call) and ast.unparse(node.func) in ('isinstance', 'issubclass') and not isinstance(node.args[1], ast.Tuple):
            add(node, path, 'exacttype', lambda n: ast.Compare(ast.Call(ast.Name('type', ast.Load()), [n.args[0]], [])
                                                               if n.func.id == 'isinstance' else n.args[0], [ast.Is()], [n.args[1]]))
        if isinstance(node, ast.Call) and ast.unparse(node.func) == 'isinstance' and isinstance(node.args[1], ast.Tuple):
            for i in range(len(node.args[1].elts)):
                def f(n, i=i):
                    del n.args[1].elts[i]
                    return n
                add(node, path, 'onetype%d' % i, f)
        if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.UnaryOp, ast.Tuple)) \
                and not ast.unparse(node).startswith('tp.'):
            add(node, path, 'softget', lambda n: ast.Call(ast.Attribute(n.value, 'get', ast.Load()), [n.slice], []))
        if isinstance(node, ast.Call) and any(isinstance(a, ast.Starred) for a in node.args):
            def f(n):
                n.args = [a for a in n.args if not isinstance(a, ast.Starred)]
                return n
            add(node, path, 'nostar', f)
        if isinstance(node, ast.Attribute) and ast.unparse(node) in ('time.monotonic', 'time.time', 'time.perf_counter'):
            def f(n):
                n.attr = {'monotonic': 'time', 'time': 'monotonic', 'perf_counter': 'time'}[n.attr]
                return n
            add(node, path, 'clock', f)
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and not ast.unparse(node.value).startswith(('super()', 'warnings', 'logger')):
            add(node, path, 'dup', lambda n: ast.If(ast.Constant(True), [n, copy.deepcopy(n)], []))
        if isinstance(node, ast.FunctionDef) and not node.decorator_list and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            def f(n):
                n.decorator_list = [ast.parse('lambda _f: lambda *_a, **_k: iter(list(__import__("itertools").islice(_f(*_a, **_k), 1000)))', mode='eval').body]
                return n
            add(node.body[-1], path, 'eager', f)
        if isinstance(node, (ast.With, ast.Try)) and len(node.body) > 1 and not isinstance(node.body[-1], ast.Return):
            def f(n):
                last = n.body.pop()
                return ast.If(ast.Constant(True), [n, last], [])
            add(node, path, 'moveout', f)
        if isinstance(node, (ast.With,)) and len(node.body) > 1 and isinstance(node.body[0], (ast.Assign, ast.Expr, ast.If)) and not node.items[0].optional_vars:
            def f(n):
                first = n.body.pop(0)
                return ast.If(ast.Constant(True), [first, n], [])
            add(node, path, 'moveup', f)
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Attribute) and ast.unparse(node.targets[0]).startswith('self.') and \
                isinstance(node.value, (ast.List, ast.Dict, ast.Set, ast.Call)) and not (isinstance(node.value, ast.Call) and (node.value.args or node.value.keywords)):
            def f(n):
                n.value = ast.Call(ast.parse('globals().setdefault', mode='eval').body, [ast.Constant('_shared_%d' % n.lineno), n.value], [])
                return n
            add(node, path, 'shared', f)
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and isinstance(parent, (ast.Return, ast.Assign, ast.Call, ast.Compare)):
            add(node, path, 'trunc', lambda n: ast.Call(ast.Name('int', ast.Load()), [n], []))
        walk(node, path, skip)

    walk(tree, [], False)
    return out


def apply(src, path, fn):
    tree = ast.parse(src)
    parent = None
    node = tree
    for field, i in path:
        parent = node
        node = getattr(node, field)
        if i is not None:
            node = node[i]
    old = ast.unparse(node)
    new = fn(copy.deepcopy(node))
    if new is None:
        return None
    field, i = path[-1]
    if i is None:
        setattr(parent, field, new)
    else:
        getattr(parent, field)[i] = new
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree)
    try:
        compile(out, 'x', 'exec')
    except (SyntaxError, ValueError):
        return None
    return out, old, ast.unparse(new)


def around(hits, src, line):
    """scenarios that execute a line, or failing that its function, or failing that the class or file"""
    found = {p: v for p, v in hits.get(str(line), {}).items() if v != ['import']}
    if found:
        return found
    blocks = []
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            blocks.append((n.end_lineno - n.lineno, n.lineno, n.end_lineno))
    blocks.append((10 ** 9, 1, 10 ** 9))
    inner = min(blocks)
    top = line in [m.lineno for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) for m in n.body]
    for size, a, b in sorted(blocks)[:1] if top else sorted(blocks):
        out = {}
        for n, by in hits.items():
            if a <= int(n) <= b:
                for p, v in by.items():
                    for x in v:
                        if x != 'import':
                            out.setdefault(p, set()).add(x)
        if out and (size < 10 ** 9 or inner[0] == 10 ** 9):
            return {p: sorted(v) for p, v in out.items()}
    return {}


def run(fraction, seed, prefixes):
    hits = json.load(open(OUT + '/map.json'))
    rng = random.Random(seed)
    todo = []
    for root, _, files in sorted(os.walk('/repo/satella')):
        for f in sorted(files):
            path = os.path.relpath(os.path.join(root, f), '/repo')
            if not f.endswith('.py') or path[8:] in SKIP or (prefixes and not any(path[8:].startswith(x) for x in prefixes)):
                continue
            src = open('/repo/' + path).read()
            for line, what, where, fn in mutations(ast.parse(src)):
                if rng.random() < fraction and (not KINDS or what.rstrip('0123456789') in KINDS):
                    todo.append((path, src, line, what, where, fn))
    rng.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()
    stats = dict(caught=0, survived=0, notreached=0)
    log = open(OUT + '/survivors-%s.txt' % seed, 'a')

    def slot(k):
        w = '%s/slot%d' % (OUT, k)
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        while True:
            with lock:
                if not todo:
                    break
                path, src, line, what, where, fn = todo.pop()
            r = apply(src, where, fn)
            if r is None:
                continue
            text, old, new = r
            scen = around(hits.get(path, {}), src, line)
            imported = any('import' in v for v in scen.values())
            for p in list(scen):
                scen[p] = [s for s in scen[p] if s != 'import']
                if not scen[p]:
                    del scen[p]
            verdict = None
            if not scen:
                verdict = 'notreached' if not imported else 'notreached'
            t0 = time.time()
            if scen:
                open(os.path.join(w, path), 'w').write(text)
                try:
                    order = sorted(scen, key=lambda p: len(scen[p]))
                    if len(order) > 8:
                        order = order[:8]
                    for p in order:
                        try:
                            r = subprocess.run(['bash', 'run.sh', p, 'quick', '--only', ','.join(scen[p])], cwd=VERIF, capture_output=True,
                                               timeout=150, env=dict(os.environ, VERIF_REPO=w, VERIF_WORKERS='1', VERIF_SCALE='2', VERIF_EVIDENCE=w + '/.ev'))
                            rc = r.returncode
                        except subprocess.TimeoutExpired:
                            rc = 99
                        if rc in (1, 99):
                            verdict = 'caught'
                            break
                    if verdict is None:        # lines executed in other threads and processes may be missing from the map
                        lines = {}
                        for by in hits.get(path, {}).values():
                            for p, v in by.items():
                                if v != ['import']:
                                    lines[p] = lines.get(p, 0) + 1
                        for p in sorted(lines, key=lambda p: -lines[p])[:4]:
                            try:
                                rc = subprocess.run(['bash', 'run.sh', p, 'quick'], cwd=VERIF, capture_output=True, timeout=300,
                                                    env=dict(os.environ, VERIF_REPO=w, VERIF_WORKERS='1', VERIF_SCALE='1', VERIF_EVIDENCE=w + '/.ev')).returncode
                            except subprocess.TimeoutExpired:
                                rc = 99
                            if rc in (1, 99):
                                verdict = 'caught'
                                break
                    verdict = verdict or 'survived'
                finally:
                    open(os.path.join(w, path), 'w').write(src)
            with lock:
                stats[verdict] += 1
                if verdict != 'caught':
                    log.write('%s:%s [%s] %s %s\n    - %s\n    + %s\n' % (path, line, what, verdict, ','.join(scen),
                              old[:300].replace('\n', '\n      '), new[:300].replace('\n', '\n      ')))
                    log.flush()
                if sum(stats.values()) % 50 == 0:
                    print(stats, len(todo), 'left', flush=True)
        shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=slot, args=(k,)) for k in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(stats)


if sys.argv[1] == 'map':
    build_map()
else:
    run(float(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
