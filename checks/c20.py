"""C20: file helpers do to the disk exactly what they say, and report truly what they have done"""
import io
import os
import re
import shutil

from vlib.harness import Check
from checks.common import MyBytes, MyStr

import satella.files as F

UMASK = os.umask(0)
os.umask(UMASK)
CHECK = Check('C20', 'A case is one history of helper calls upon files of a scratch directory, with the directory read back by '
                     'plain means after each; distinct by contents and operations; non-trivial if at least two oracle '
                     'evaluations took place')


def raw(p):
    with open(p, 'rb') as f:
        return f.read()


def put(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def is_open(p):
    p = os.path.realpath(p)
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.path.realpath('/proc/self/fd/' + fd) == p:
                return True
        except OSError:
            pass
    return False


@CHECK.scenario(quick=400, thorough=20000)
def autoflush(c):
    rng = c.rng
    d = c.tmpdir()
    p = os.path.join(d, 'f')
    mode = rng.choice(['w', 'wb', 'w+', 'wb+', 'a', 'ab', 'a+', 'ab+'])
    binary = 'b' in mode
    readable = '+' in mode
    model = b''
    if rng.random() < 0.7:
        model = rng.choice([b'', b'hello', b'line\nline2\n'])
        put(p, model)
    kw = {} if binary else {'encoding': 'utf-8'}
    conv = (lambda b: b) if binary else (lambda b: b.decode('utf-8'))
    f = F.AutoflushFile(p, mode, **kw)
    if mode[0] == 'w':
        model = b''
    c.eq(raw(p), model, 'opening')
    ptr = len(model)
    c.rec(mode, model)
    for _ in range(rng.randrange(2, 14)):
        op = rng.randrange(9)
        c.rec(op)
        if op <= 2:
            s = rng.choice([b'x', b'abc', b'', b'zz\n', 'ó'.encode('utf-8') if not binary else b'\xff\x00'])
            s = s if rng.random() < 0.9 else s * 10000
            c.eq(f.write(conv(s)), len(conv(s)), 'write-result')
            model += s
            ptr = len(model) if s else ptr
        elif op == 3:
            k = rng.choice([0, len(model)])
            try:
                model[:k].decode('utf-8')
            except UnicodeDecodeError:
                continue
            if rng.random() < 0.5:
                c.eq(f.seek(k), k, 'seek')
                ptr = k
            else:
                c.eq(f.seek(0, os.SEEK_END), len(model), 'seek')
                ptr = len(model)
        elif op == 4 and binary:
            k = rng.randrange(0, len(model) + 1)
            how = rng.randrange(3)
            if how == 0:
                c.eq(f.seek(k), k, 'seek')
            elif how == 1:
                c.eq(f.seek(k - ptr, os.SEEK_CUR), k, 'seek', ptr=ptr)
            else:
                c.eq(f.seek(k - len(model), os.SEEK_END), k, 'seek')
            ptr = k
            if rng.random() < 0.2:
                c.raises((OSError, ValueError), lambda: f.seek(-ptr - 1, os.SEEK_CUR), 'seek-before-the-beginning')
        elif op == 5 and readable:
            c.eq(f.read(), conv(model[ptr:]), 'read', ptr=ptr)
            ptr = max(ptr, len(model))
        elif op == 6 and readable:
            if binary:
                k = rng.randrange(4)
                c.eq(f.read(k), model[ptr:ptr + k], 'read', ptr=ptr)
                ptr = min(ptr + k, max(len(model), ptr))
            else:
                f.seek(0)
                c.eq(f.readall(), conv(model), 'readall')
                ptr = len(model)
        elif op == 7:
            k = rng.choice([0, len(model), rng.randrange(len(model) + 1) if binary else 0])
            f.truncate(k)
            model = model[:k]
            c.eq(raw(p), model, 'truncate')
            f.seek(0, os.SEEK_END)
            ptr = len(model)
        elif op == 8:       # another process appends
            with open(p, 'ab') as g:
                g.write(b'other')
            model += b'other'
            if rng.random() < 0.5:
                f.write(conv(b'!'))
                model += b'!'
                ptr = len(model)
        c.eq(raw(p), model, 'visible-at-once', op=op)
        c.expect(not is_open(p), 'kept-open', op=op)
    if not readable:
        c.raises((io.UnsupportedOperation, OSError), lambda: f.read(), 'write-only')
    f.close()
    for fn in (lambda: f.write(conv(b'a')), lambda: f.read(), lambda: f.seek(0), lambda: f.truncate(0), lambda: f.readall()):
        c.raises(ValueError, fn, 'closed')
    c.eq(raw(p), model, 'closed')
    c.raises(ValueError, lambda: F.AutoflushFile(p, rng.choice(['r', 'rb', 'x', 'r+', 'rw'])), 'mode')
    c.eq(raw(p), model, 'bad-mode-changes')


@CHECK.scenario(quick=500, thorough=20000)
def read_and_write(c):
    rng = c.rng
    d = c.tmpdir()
    p = os.path.join(d, 'f')
    model = None
    texts = ['', 'abc', 'a\r\nb\rc\n', 'zażółć\n\u2028x', '\ufeffbom', 'x' * 10000]
    for _ in range(rng.randrange(1, 9)):
        op = rng.randrange(8)
        enc = rng.choice([None, 'utf-8', 'utf-8', 'utf-16-le'])
        t = rng.choice(texts)
        data = t.encode('utf-8') if enc is None else t
        c.rec(op, enc, t[:20])
        if op == 0:
            F.write_to_file(p, data, enc)
            model = data if enc is None else data.encode(enc)
        elif op == 1:
            want = model is None or (model != data if enc is None else None)
            if want is None:
                try:
                    want = model.decode(enc) != data
                except UnicodeDecodeError:
                    continue
            if model is not None:
                os.utime(p, (1000, 1000))
            c.eq(F.write_out_file_if_different(p, data, enc), want, 'if-different')
            if want:
                model = data if enc is None else data.encode(enc)
            else:
                c.eq(os.stat(p).st_mtime, 1000.0, 'if-different-written-needlessly')
        elif op in (2, 3):
            if model is None:
                c.raises(FileNotFoundError, lambda: F.read_in_file(p, enc), 'read-missing')
                x = rng.choice([None, b'd', 'd', 0])
                c.expect(F.read_in_file(p, enc, x) is x, 'read-default')
                c.expect(F.read_in_file(d, enc, default=x) is x, 'read-default-directory')
                c.raises(FileNotFoundError, lambda: F.read_in_file(d), 'read-directory')
            else:
                c.eq(F.read_in_file(p), model, 'read')
                if enc == 'utf-8':
                    try:
                        w = model.decode(enc)
                    except UnicodeDecodeError:
                        continue
                    c.eq(F.read_in_file(p, enc, 'default'), w, 'read')
        elif op == 4:
            c.eq(F.try_unlink(p), model is not None, 'try-unlink')
            c.expect(not os.path.exists(p), 'try-unlink')
            model = None
        elif op == 5:
            q = os.path.join(d, 'sub', 'deeper')
            os.makedirs(q)
            put(os.path.join(q, 'file'), b'x')
            c.eq(F.try_unlink(os.path.join(d, 'sub')), True, 'try-unlink-directory')
            c.expect(not os.path.exists(os.path.join(d, 'sub')), 'try-unlink-directory')
            c.eq(F.try_unlink(os.path.join(d, 'sub')), False, 'try-unlink-directory')
        elif op == 6:
            lines = [rng.choice(['a', ' b ', '', '   ', '\tx y\t', 'ż']) for _ in range(rng.randrange(6))]
            nl = rng.choice(['\n', '\r\n'])
            text = nl.join(lines) + rng.choice(['', nl])
            q = os.path.join(d, 'lines')
            put(q, text.encode('utf-8'))
            keep = [x.strip() for x in text.splitlines()]
            c.eq(F.read_lines(q, delete_empty_lines=False), keep, 'read-lines')
            c.eq(F.read_lines(q), [x for x in keep if x], 'read-lines')
            put(q, 'ó\n'.encode('latin-1'))
            c.eq(F.read_lines(q, encoding='latin-1'), ['ó'], 'read-lines')
        else:
            q = os.path.join(d, 'sub.txt')
            text = ''.join(rng.choice('ab1 \n') for _ in range(rng.randrange(30)))
            put(q, text.encode())
            pat = rng.choice([r'a+', r'(b)(1)', '^', r'\s'])
            rep = rng.choice(['', 'X', lambda m: '<' + m.group(0) + '>'])
            F.read_re_sub_and_write(q, re.compile(pat) if rng.random() < 0.5 else pat, rep)
            c.eq(raw(q).decode(), re.sub(pat, rep, text), 're-sub')
        if model is None:
            c.expect(not os.path.exists(p), 'exists')
        else:
            c.eq(raw(p), model, 'contents')


@CHECK.scenario(quick=400, thorough=15000)
def names(c):
    rng = c.rng
    d = c.tmpdir()
    files = set()
    for _ in range(rng.randrange(0, 8)):
        rel = os.path.join(*[rng.choice(['a', 'b', 'test', 'x.d'])[:9] for _ in range(rng.randrange(1, 4))]) + \
            rng.choice(['.txt', '.py', '.1'])
        try:
            os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
            put(os.path.join(d, rel), b'')
            files.add(rel)
        except OSError:
            continue
    c.rec(sorted(files))
    wc = rng.choice([r'(.*)', r'a', r'(.*)\.txt$', r'test', r'(.*)a(.*)', r'b/'])
    whole = rng.random() < 0.5
    with_path = rng.random() < 0.5
    prefix = rng.choice([None, None, 'pre', 'p/q'])
    kw = {}
    if whole or rng.random() < 0.3:
        kw['apply_wildcard_to_entire_path'] = whole
    if not with_path or rng.random() < 0.3:
        kw['prefix_with_path'] = with_path
    if prefix:
        kw['prefix_with'] = prefix
    want = []
    for rel in files:
        full = os.path.join(d, rel) if with_path else rel
        if prefix:
            full = os.path.join(prefix, full)
        if re.match(wc, full if whole else os.path.basename(rel)):
            want.append(full)
    c.eq(sorted(F.find_files(d, wc, **kw)), sorted(want), 'find-files', wc=wc, kw=kw)
    # deletion
    victim = os.path.join(d, 'victim')
    kind = rng.choice(['missing', 'file', 'dir', 'link', 'link-to-dir', 'dangling', 'below-file'])
    inside = os.path.join(d, 'pointed-at')
    os.mkdir(inside)
    put(os.path.join(inside, 'content'), b'1')
    if kind in ('file', 'below-file'):
        put(victim, b'x')
    elif kind == 'dir':
        os.makedirs(os.path.join(victim, 'deeper'))
        put(os.path.join(victim, 'deeper', 'f'), b'')
    elif kind == 'link':
        os.symlink(os.path.join(inside, 'content'), victim)
    elif kind == 'link-to-dir':
        os.symlink(inside, victim)
    elif kind == 'dangling':
        os.symlink(os.path.join(d, 'no such file'), victim)
    target = os.path.join(victim, 'x') if kind == 'below-file' else victim
    existed = os.path.lexists(target)
    st, res = c.attempt(lambda: F.try_unlink(target))
    c.rec(kind, st)
    gone = existed and not os.path.lexists(target)
    if st == 'ok':
        c.eq(bool(res), gone, 'try-unlink-reports', kind=kind)
    else:
        c.expect(isinstance(res, OSError) and not gone and kind == 'below-file', 'try-unlink-raises', kind=kind, exc=res)
    if kind in ('file', 'dir', 'link', 'dangling'):
        c.expect(gone, 'try-unlink', kind=kind)
    c.eq(raw(os.path.join(inside, 'content')), b'1', 'try-unlink-follows', kind=kind)
    for x in (victim, inside):
        if os.path.isdir(x) and not os.path.islink(x):
            shutil.rmtree(x)
        elif os.path.lexists(x):
            os.unlink(x)
    # non-colliding names
    q = os.path.join(d, rng.choice(['n', 'n.txt', 'n.tar.gz', '.rc']))
    taken = set()
    for _ in range(rng.randrange(1, 6)):
        n = F.make_noncolliding_name(q) if rng.random() < 0.8 else \
            F.make_noncolliding_name(q, lambda x: x in taken)
        c.expect(n not in taken and not os.path.exists(n), 'noncolliding', n=n)
        c.eq(os.path.dirname(n), d, 'noncolliding-directory')
        if not taken:
            c.eq(n, q, 'noncolliding-unchanged')
        c.eq(os.path.splitext(n)[1] if '.' in os.path.basename(q)[1:] else '',
             os.path.splitext(q)[1], 'noncolliding-extension', n=n)
        put(n, b'')
        taken.add(n)
    # splitting
    parts = [rng.choice(['a', 'b c', '..', '.', '~', 'x.y', 'q\\r']) for _ in range(rng.randrange(1, 6))]
    path = rng.choice(['', '/', '//']) + '/'.join(parts) + rng.choice(['', '', '/'])
    got = F.split(path)
    c.rec(path)
    c.eq(os.path.join(*got), path, 'split', path=path)
    c.expect(all('/' not in x for x in got[1:]) and ('/' not in got[0] or set(got[0]) == {'/'}), 'split-parts', parts=got)
    # directories
    here = os.getcwd()
    try:
        t1, t2 = os.path.join(d, 'j1', 'deep'), os.path.join(d, 'j2')
        fail = rng.random() < 0.5
        try:
            with F.jump_to_directory(t1) as j:
                c.eq(os.path.realpath(os.getcwd()), os.path.realpath(t1), 'jump')
                with F.jump_to_directory(t2):
                    c.eq(os.path.realpath(os.getcwd()), os.path.realpath(t2), 'jump')
                    if fail:
                        raise KeyError(1)
                c.eq(os.path.realpath(os.getcwd()), os.path.realpath(t1), 'jump-back')
        except KeyError:
            c.expect(fail, 'jump')
        else:
            c.expect(not fail, 'jump-swallows')
        c.eq(os.getcwd(), here, 'jump-back')
    finally:
        os.chdir(here)


@CHECK.scenario(quick=300, thorough=5000)
def dev_null(c):
    rng = c.rng
    b = rng.random() < 0.5
    n = F.DevNullFilelikeObject(b) if rng.random() < 0.5 else F.DevNullFilelikeObject(binary=b)
    good, bad = ('abc', b'ab') if not b else (b'abc', 'ab')
    closed = False
    for _ in range(rng.randrange(2, 12)):
        op = rng.randrange(8)
        c.rec(b, op)
        calls = [lambda: n.write(good * op), lambda: n.read(), lambda: n.read(5), lambda: n.flush(), lambda: n.seek(0),
                 lambda: n.tell(), None, lambda: n.truncate(rng.choice([0, 5]))]
        if op == 6:
            if rng.random() < 0.3:
                n.close()
                closed = True
        elif closed:
            c.raises(ValueError, calls[op], 'null-closed')
            c.raises(ValueError, lambda: n.write(good), 'null-closed')
        else:
            c.eq(calls[op](), [3 * op, good[:0], good[:0], None, 0, 0, None, 0][op], 'null')
            c.raises(TypeError, lambda: n.write(bad), 'null-type')
            c.eq(n.write(good), 3, 'null')
            c.expect(n.writable() and n.seekable(), 'null')
    with F.DevNullFilelikeObject() as m:
        m.write('x')
    c.raises(ValueError, lambda: m.write('x'), 'null-closed')
    n.close()


@CHECK.scenario(quick=200, thorough=5000)
def dev_null_as_a_file(c):
    """/dev/null passes for a file with everything that files are used for, until it is closed"""
    import csv
    import json
    import pickle
    rng = c.rng
    b = rng.random() < 0.5
    n = F.DevNullFilelikeObject(binary=b)
    empty = b'' if b else ''
    some = [rng.choice([MyBytes, bytes])(b'a' * rng.randrange(400)) if b else rng.choice([MyStr, str])('a' * rng.randrange(400)) for _ in range(3)]
    uses = [
        ('write', lambda: [n.write(x) for x in some], [len(x) for x in some]),
        ('writelines', lambda: n.writelines(rng.choice([list, tuple, iter])(some)), None),
        ('writelines-bad', lambda: c.raises(TypeError, lambda: n.writelines(some + ['a' if b else b'a']), 'null-type') and None, None),
        ('readline', lambda: (n.readline(), n.readline(10)), (empty, empty)),
        ('readlines', lambda: (n.readlines(), list(n)), ([], [])),
        ('next', lambda: next(iter(n), 'none'), 'none'),
        ('read', lambda: (n.read(), n.read(-1), n.read(None)), (empty, empty, empty)),
        ('seek', lambda: (n.seek(5), n.seek(0, 2), n.seek(1, 1), n.tell()), (0, 0, 0, 0)),
        ('truncate', lambda: (n.truncate(), n.truncate(9)), (0, 0)),
        ('flags', lambda: (n.readable(), n.writable(), n.seekable(), n.isatty(), n.closed), (True, True, True, False, False)),
        ('flush', lambda: n.flush(), None),
        ('enter', lambda: n.__enter__() is n, True),
    ]
    if b:
        uses += [('pickle', lambda: pickle.dump({'a': some}, n), None),
                 ('shutil', lambda: shutil.copyfileobj(io.BytesIO(b'x' * 1000), n), None)]
    else:
        uses += [('print', lambda: print('x', 5, file=n, flush=True), None), ('json', lambda: json.dump({'a': [1, 2]}, n), None),
                 ('csv', lambda: csv.writer(n).writerow(['a', 5]), 5), ('shutil', lambda: shutil.copyfileobj(io.StringIO('x' * 1000), n), None)]
    for name, use, want in rng.sample(uses, rng.randrange(2, len(uses) + 1)):
        c.rec(b, name)
        out = c.attempt(use)
        c.eq(out, ('ok', want), 'null', use=name)
    if b:
        w = io.TextIOWrapper(n, encoding='utf-8')
        w.write('zażółć')
        w.flush()
        w.detach()
    n.close()
    n.close()
    c.expect(n.closed, 'null-closed')
    for f in (lambda: n.write(some[0]), lambda: n.writelines(some), lambda: n.readline(), lambda: list(n), lambda: n.read(), lambda: n.seek(0, 2), lambda: n.flush(),
              lambda: n.readable(), lambda: n.tell(), lambda: n.truncate()):
        c.raises(ValueError, f, 'null-closed')


@CHECK.scenario(quick=200, thorough=5000)
def options(c):
    """Arguments seldom given: positional ones of AutoflushFile, scan_subdirectories, mode of jump_to_directory"""
    rng = c.rng
    d = c.tmpdir()
    p = os.path.join(d, 'f')
    how = rng.randrange(4)
    c.rec(how)
    if how == 0:
        enc = rng.choice(['utf-16-le', 'latin-1', 'utf-8'])
        put(p, 'old'.encode(enc))
        mode = rng.choice(['a+', 'w+', 'a', 'w'])
        f = F.AutoflushFile(p, mode, rng.choice([-1, 1, 4096]), enc) if rng.random() < 0.7 else F.AutoflushFile(p, mode, encoding=enc)
        model = 'old' if mode[0] == 'a' else ''
        for _ in range(rng.randrange(1, 4)):
            t = rng.choice(['x', 'é', 'ab', 'é' * 50])
            c.eq(f.write(t), len(t), 'options-write')
            model += t
            c.eq(raw(p), model.encode(enc), 'options-contents', 'contents of file')
        f.close()
    elif how == 1:
        put(p, b'0123456789')
        f = F.AutoflushFile(p, 'ab+', rng.choice([0, -1, 4096]))
        k = rng.randrange(0, 11)
        f.seek(k)
        c.eq(f.readall(), b'0123456789'[k:], 'options-readall')
        c.eq(f.readall(), b'', 'options-readall')
        f.seek(2)
        c.eq(f.read(3), b'234', 'options-read')
        c.eq(f.truncate(4) if rng.random() < 0.5 else f.truncate(_size=4), 4, 'options-truncate')
        c.eq(raw(p), b'0123', 'options-truncate')
        f.write(b'ab')
        c.eq(raw(p), b'0123ab', 'options-append')
        f.close()
        c.raises(ValueError, f.readall, 'options-closed')
    elif how == 2:
        os.makedirs(os.path.join(d, 'sub', 'deeper'))
        names = {x for x in ['a.txt', 'b.txt', 'c.py', 'sub/d.txt', 'sub/deeper/e.txt'] if rng.random() < 0.7}
        for n in names:
            put(os.path.join(d, n), b'')
        wc = rng.choice([r'(.*)', r'(.*)\.txt$'])
        for deep in (True, False):
            found = [x for x in F.find_files(d, wc, scan_subdirectories=deep) if not os.path.isdir(x)]
            want = [os.path.join(d, n) for n in names if (deep or '/' not in n) and re.match(wc, os.path.basename(n))]
            c.eq(sorted(found), sorted(want), 'find-files-flat', 'files found', deep=deep, wc=wc)
    else:
        was = os.getcwd()
        t = os.path.join(d, 'x')
        mode = rng.choice([0o700, 0o755, 0o750])
        j = F.jump_to_directory(t, mode) if rng.random() < 0.5 else F.jump_to_directory(t, mode=mode)
        try:
            c.eq(os.stat(t).st_mode & 0o777, mode & ~UMASK, 'jump-mode', 'mode of the directory made')
            with j:
                c.eq(os.path.realpath(os.getcwd()), os.path.realpath(t), 'jump-there')
            c.eq(os.getcwd(), was, 'jump-back')
        finally:
            os.chdir(was)
