"""C19: a binary parser hands out exactly the bytes of its window, never others, and never fewer than asked for"""
import struct

from vlib.harness import Check
from checks.common import MyBytes, MyInt, MyStr, fresh, two_of_a_kind

from satella.exceptions import NotEnoughBytes
from satella.parsing import BinaryParser

CHECK = Check('C19', 'A case is one history of reads, skips, structs, nested windows, resets and pointer rewinds on parsers over '
                     'one random stream, followed by a model that slices; distinct by stream and operations; non-trivial if at '
                     'least two oracle evaluations took place')

FORMATS = ['l', '=l', '@l', '<l', 'q', '=q', 'H', '=H', '>h', 'B', 'b', '>H', '<H', '!I', '=L', '@i', '>Q', '<d', 'c', '?', '>f', 'x' * 0 or 'h']
MULTI = ['bl', '=bl', '@bl', '<bl', '>bl', 'bi', '@bi', '=bi', 'BB', '>HBx', '<IQ', '!2s3B', '=hhl', '4s', '>' + 'B' * 9, '@iB', '']


class Model:
    def __init__(self, data, lo, n):
        self.data = data
        self.lo = lo
        self.n = n
        self.p = 0

    @property
    def left(self):
        return self.n - self.p

    def window(self):
        return self.data[self.lo:self.lo + self.n]


@CHECK.scenario(quick=4000, thorough=200000)
def parsing(c):
    rng = c.rng
    n = rng.choice([0, 1, 2, 5, 9, 20, 40])
    data = bytes(rng.randrange(256) for _ in range(n))
    kind = rng.choice([bytes, bytearray, memoryview])
    stream = kind(data)
    off = rng.choice([0, 0, rng.randrange(0, n + 1), n])
    ln = rng.choice([None, None, rng.randrange(0, n + 1), 0, n + 5])
    c.rec(data, kind.__name__, off, ln)
    c.raises(NotEnoughBytes, lambda: BinaryParser(stream, n + 1 + rng.randrange(3)), 'offset-too-large')
    how = rng.randrange(2)
    if ln is None:
        p = BinaryParser(stream, off) if how else BinaryParser(stream, offset=off)
        m = Model(data, off, n - off)
    else:
        p = BinaryParser(stream, off, ln) if how else BinaryParser(stream, length=ln, offset=off)
        m = Model(data, off, min(ln, n - off))
    parsers = [(p, m)]
    marks = []
    for _ in range(rng.randrange(2, 16)):
        i = rng.randrange(len(parsers))
        p, m = parsers[i]
        op = rng.randrange(12)
        k = rng.choice([0, 1, 1, 2, 3, m.left, m.left + 1, m.left + 30])
        c.rec(i, op, k)
        cur = m.lo + m.p
        if op <= 1:
            if k <= m.left:
                c.eq(bytes(p.get_bytes(k)), data[cur:cur + k], 'get-bytes', k=k)
                m.p += k
            else:
                c.raises(NotEnoughBytes, lambda: p.get_bytes(k), 'get-bytes', k=k)
        elif op == 2:
            if k <= m.left:
                p.skip(k)
                m.p += k
            else:
                c.raises(NotEnoughBytes, lambda: p.skip(k), 'skip', k=k)
        elif op == 3:
            if k <= m.left:
                q = p.get_parser(k)
                parsers.append((q, Model(data, cur, k)))
                m.p += k
            else:
                c.raises(NotEnoughBytes, lambda: p.get_parser(k), 'get-parser', k=k)
        elif op in (4, 5):
            f = rng.choice(FORMATS)
            st = struct.Struct(f)
            arg = st if rng.random() < 0.4 else f
            if st.size <= m.left:
                got = p.get_struct(arg)
                want = st.unpack(data[cur:cur + st.size])[0]
                c.expect(got == want or got != got and want != want, 'get-struct', result=got, wanted=want, f=f)
                m.p += st.size
            else:
                c.raises(NotEnoughBytes, lambda: p.get_struct(arg), 'get-struct', f=f)
        elif op in (6, 7):
            f = rng.choice(MULTI if rng.random() < 0.5 else MULTI[:8])
            st = struct.Struct(f)
            arg = st if rng.random() < 0.4 else f
            if st.size <= m.left:
                c.eq(p.get_structs(arg), st.unpack(data[cur:cur + st.size]), 'get-structs', f=f)
                m.p += st.size
            else:
                c.raises(NotEnoughBytes, lambda: p.get_structs(arg), 'get-structs', f=f)
        elif op == 8:
            if rng.random() < 0.3:
                p.reset()
                m.p = 0
            else:
                c.raises(AssertionError, lambda: p.get_struct(rng.choice(['BB', '>BH', '=Lh'])), 'single-element')
        elif op == 9:
            if marks and rng.random() < 0.6:
                j, at, mp = rng.choice(marks)
                parsers[j][0].pointer = at
                parsers[j][1].p = mp
            else:
                marks.append((i, p.pointer, m.p))
        elif op == 10:
            if k <= m.left:
                p.assert_has_bytes(k)
            else:
                c.raises(NotEnoughBytes, lambda: p.assert_has_bytes(k), 'assert-has-bytes', k=k)
        for q, w in parsers:
            at = w.lo + w.p
            c.eq(q.get_remaining_bytes_count(), w.left, 'remaining-count')
            c.eq(bytes(q.get_remaining_bytes()), data[at:at + w.left], 'remaining-bytes')
            c.eq(len(q), w.n, 'len')
            c.eq(bytes(q), w.window(), 'window')
            c.eq(q.pointer, at, 'pointer')


@CHECK.scenario(quick=600, thorough=30000)
def long_streams(c):
    """Long streams of anything that passes for bytes, counts and formats that only equal the plain ones"""
    rng = c.rng
    n = rng.randrange(257, 3000)
    data = rng.randbytes(n)
    stream = rng.choice([bytes, MyBytes, bytearray, memoryview])(data)
    off = rng.randrange(0, n // 2)
    ln = rng.choice([None, rng.randrange(0, n - off + 1), 10 ** 9])

    class MyStruct(struct.Struct):
        pass
    p = BinaryParser(stream, MyInt(off), ln if ln is None else MyInt(ln))
    end = n if ln is None else min(n, off + ln)
    at = off
    c.rec(n, off, ln, type(stream).__name__)
    for _ in range(rng.randrange(2, 30)):
        op = rng.randrange(6)
        k = rng.choice([rng.randrange(0, 40), end - at, rng.randrange(0, max(1, end - at + 1)), end - at + 1])
        fits = k <= end - at
        if op == 0:
            if fits:
                c.eq(bytes(p.get_bytes(MyInt(k))), data[at:at + k], 'get-bytes')
                at += k
            else:
                c.raises(NotEnoughBytes, lambda: p.get_bytes(MyInt(k)), 'get-bytes')
        elif op == 1:
            if fits:
                q = p.get_parser(fresh(k))
                c.eq((bytes(q), len(q), q.pointer), (data[at:at + k], k, at), 'get-parser')
                c.eq(bytes(q.get_remaining_bytes()), data[at:at + k], 'get-parser')
                if k:
                    q.skip(k - 1)
                    c.eq(q.get_struct('B'), data[at + k - 1], 'get-parser')
                c.raises(NotEnoughBytes, lambda: q.get_bytes(1), 'get-parser')
                q.reset()
                c.eq(q.pointer, at, 'get-parser')
                at += k
            else:
                c.raises(NotEnoughBytes, lambda: p.get_parser(k), 'get-parser')
        elif op == 2:
            f = rng.choice(FORMATS)
            st = rng.choice([MyStr, MyStruct, struct.Struct])(f)
            size = struct.calcsize(f)
            if size <= end - at:
                got, want = p.get_struct(st), struct.unpack(f, data[at:at + size])[0]
                c.expect(got == want or got != got and want != want, 'get-struct', result=got, wanted=want, f=f)
                at += size
            else:
                c.raises(NotEnoughBytes, lambda: p.get_struct(st), 'get-struct')
        elif op == 3:
            f = rng.choice(MULTI[:8] + ['>%dB' % rng.randrange(1, 400), '%ds' % rng.randrange(1, 400)])
            st = rng.choice([MyStr, MyStruct, struct.Struct])(f)
            size = struct.calcsize(f)
            if size <= end - at:
                c.eq(p.get_structs(st), struct.unpack(f, data[at:at + size]), 'get-structs', f=f)
                at += size
            else:
                c.raises(NotEnoughBytes, lambda: p.get_structs(st), 'get-structs', f=f)
        elif op == 4:
            if fits:
                p.skip(k)
                at += k
            else:
                c.raises(NotEnoughBytes, lambda: p.skip(k), 'skip')
        elif rng.random() < 0.3:
            p.reset()
            at = off
        c.rec(op, at)
        c.eq((p.pointer, p.get_remaining_bytes_count(), len(p)), (at, end - at, end - off), 'pointer')
    c.eq(bytes(p), data[off:end], 'window')
    c.eq(bytes(p.get_remaining_bytes()), data[at:end], 'remaining-bytes')


@CHECK.scenario(quick=200, thorough=5000)
def two_at_once(c):
    """Two parsers of the same bytes, and of others, advance on their own, whatever formats they have read before"""
    rng = c.rng
    stream = bytes(rng.randrange(256) for _ in range(16))
    formats = [rng.choice(['>H', '<H', '>I', 'B', '>h', '<q']) for _ in range(rng.randrange(1, 3))]
    c.rec(formats)
    two_of_a_kind(c, [('parser', lambda: BinaryParser(stream), lambda p: [p.get_struct(f) for f in formats],
                       lambda p: (p.pointer, len(p), bytes(p), p.get_remaining_bytes_count()))])
    other = BinaryParser(stream[::-1])
    want = [struct.unpack(f, stream[::-1][:struct.calcsize(f)])[0] for f in formats]
    for f, w in zip(formats, want):
        other.pointer = 0
        got = other.get_struct(f)
        c.eq(got[0] if isinstance(got, tuple) else got, w, 'of-its-own')
