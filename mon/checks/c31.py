"""C31: the work done is in proportion to what is asked."""
import gc
import io
import json
import os
import sys
import time

import blosc
import numpy as np

from bloscpack.abstract_io import pack, unpack
from bloscpack.append import _rewrite_metadata_fp, append, append_fp
from bloscpack.file_io import (CompressedFPSink, CompressedFPSource, PlainFPSink,
                               PlainFPSource, _read_beginning, _read_bloscpack_header,
                               _read_metadata)
from bloscpack.memory_io import (CompressedMemorySink, CompressedMemorySource,
                                 PlainMemorySink, PlainMemorySource)
from bloscpack.numpy_io import pack_ndarray, unpack_ndarray
import bloscpack as bp

from .. import core, gen, ops, ref

RULE = ('a case is one operation on a file whose total size is far larger than what the operation '
        'concerns: bytes read and written, chunks compressed and decompressed are counted '
        'and compared with what is needed; "scale" cases compare the processor time and the '
        'lines executed for n and 4n chunks; distinct by operation, settings and sizes')
ASSUMPTIONS = ['half as much again and 64 kB are allowed over what is needed',
               'processor time: a factor of 9 for 4 times as much, in each of five measurements, '
               'is no longer proportional']
REQUIRE = {'bounds': 2200, 'append': 80, 'appends': 200, 'array': 40, 'damaged': 12, 'disk': 60,
           'foreign': 16, 'line_counts': 40, 'look': 50, 'no_room': 20, 'on_disk': 55, 'pack': 60,
           'refused': 60, 'scale': 6, 'unpack': 60, 'update': 40, 'updated': 30, 'measured': 6}
SLACK = 65536


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 15}[tier]
    return ([('scale', n) for n in range(len(SCALE) * min(q, 4))] +
            [('pack', n) for n in range(120 * q)] + [('unpack', n) for n in range(120 * q)] +
            [('append', n) for n in range(160 * q)] + [('update', n) for n in range(80 * q)] +
            [('look', n) for n in range(100 * q)] + [('refused', n) for n in range(120 * q)] +
            [('array', n) for n in range(80 * q)] + [('disk', n) for n in range(120 * q)] +
            [('lines', n) for n in range(80 * q)])


class Counting(io.BytesIO):
    """Counts what is delivered and taken."""

    def __init__(self, b=b''):
        io.BytesIO.__init__(self, b)
        self.r = self.w = self.n = 0

    def read(self, *a):
        b = io.BytesIO.read(self, *a)
        self.r += len(b)
        self.n += 1
        return b

    def readinto(self, b):
        n = io.BytesIO.readinto(self, b)
        self.r += n
        self.n += 1
        return n

    def write(self, b):
        self.w += len(b)
        return io.BytesIO.write(self, b)

    def getvalue(self):
        self.r += self.getbuffer().nbytes
        return io.BytesIO.getvalue(self)

    def final(self):
        return io.BytesIO.getvalue(self)


class Blosc(object):
    """Counts chunks and bytes compressed and decompressed while active."""

    NAMES = ('compress', 'compress_ptr', 'decompress', 'decompress_ptr')

    def __enter__(self):
        self.calls = dict.fromkeys(self.NAMES, 0)
        self.old = dict((n, getattr(blosc, n)) for n in self.NAMES)
        for n in self.NAMES:
            setattr(blosc, n, self.wrapper(n))
        return self

    def wrapper(self, n):
        f = self.old[n]

        def wrapped(*a, **k):
            self.calls[n] += 1
            return f(*a, **k)
        return wrapped

    def __exit__(self, *a):
        for n in self.NAMES:
            setattr(blosc, n, self.old[n])

    @property
    def compressed(self):
        return self.calls['compress'] + self.calls['compress_ptr']

    @property
    def decompressed(self):
        return self.calls['decompress'] + self.calls['decompress_ptr']


def within(ctx, what, got, need, unit='bytes'):
    ctx.event('bounds')
    ctx.check(got <= need * 1.5 + (SLACK if unit == 'bytes' else 0),
              '%s: %d %s where %d are needed' % (what, got, unit, need))


def setting(ctx, chunks=None, size=None, meta=None, app=None):
    """Data of some megabytes and settings."""
    rng = ctx.rng
    size = size or rng.randrange(700000, 3000000)
    n = chunks or rng.choice([1, 2, 8, 40, 300])
    chunk = size // n
    block = rng.randbytes(5000)
    data = (block * (size // 5000 + 2))[:size] if rng.random() < 0.5 else rng.randbytes(size)
    s = ops.random_spec(rng, chunk, meta=False)
    s['blosc'] = dict(typesize=rng.choice([1, 4, 8]), clevel=rng.choice([0, 1, 5]), shuffle=True,
                      cname=rng.choice(['lz4', 'blosclz']))
    if app is not None:
        s['bpack'] = dict(offsets=True, checksum=rng.choice(gen.CHECKSUMS), max_app=('int', app))
    if meta if meta is not None else rng.random() < 0.4:
        s['meta'] = rng.choice([{'a': 1}, {'long': rng.randbytes(2000).hex()}])
        s['ma'] = gen.metadata_args(rng)
    ctx.note = {'spec': {k: v for k, v in s.items() if k != 'meta'}, 'size': size, 'chunks': n}
    return data, s


def case(ctx, kind, arg):
    if kind == 'scale':
        return case_scale(ctx, arg)
    globals()['case_' + kind](ctx)
    ctx.event('evaluations')
    ctx.event(kind)
    ctx.nontrivial(kind, ctx.note)
    ctx.sample(ctx.note)


def case_pack(ctx):
    data, s = setting(ctx)
    i, o = Counting(data), Counting()
    n, c, last = ops.nchunks_of(len(data), s)
    with Blosc() as b:
        ctx.must('packing', lambda: pack(PlainFPSource(i), CompressedFPSink(o), n, c, last,
                                         **ops.kw_pack(s)))
    within(ctx, 'packing reads', i.r, len(data))
    within(ctx, 'packing writes', o.w, len(o.final()) + 16 * n)
    within(ctx, 'packing reads its output', o.r, 0)
    within(ctx, 'packing', b.compressed, n, 'chunks compressed')
    within(ctx, 'packing', b.decompressed, 0, 'chunks decompressed')


def case_unpack(ctx):
    data, s = setting(ctx)
    img = ops.mk(data, s)
    i, o = Counting(img), Counting()
    n = ops.nchunks_of(len(data), s)[0]
    with Blosc() as b:
        ctx.must('unpacking', lambda: unpack(CompressedFPSource(i), PlainFPSink(o)))
    within(ctx, 'unpacking reads', i.r, len(img) + 16 * n)
    within(ctx, 'unpacking writes', o.w, len(data))
    within(ctx, 'unpacking writes its input', i.w, 0)
    within(ctx, 'unpacking', b.decompressed, n, 'chunks decompressed')
    within(ctx, 'unpacking', b.compressed, 0, 'chunks compressed')


def target(ctx, **k):
    rng = ctx.rng
    data, s = setting(ctx, chunks=rng.choice([40, 150, 400]), size=rng.randrange(1500000, 3000000),
                      app=rng.choice([10, 1000]), **k)
    img = ops.mk(data, s)
    f = ref.parse(img, decode=False)
    return data, s, img, f


def needed(f, img):
    """Bytes of the parts an append has to look at."""
    last = f.chunks[-1]
    return f.first + (len(img) - last['pos'])


def case_append(ctx):
    rng = ctx.rng
    data, s, img, f = target(ctx)
    chunk = f.h['chunk_size']
    o = Counting(img)
    for k in range(rng.choice([1, 2, 5])):
        size = rng.choice([0, 1, chunk // 2, chunk, 2 * chunk + 5])
        piece = Counting(rng.randbytes(size))
        o.seek(0)
        o.r = o.w = 0
        before = ref.parse(o.final(), decode=False)
        room = needed(before, o.final())
        with Blosc() as b:
            ctx.must('append', append_fp, o, piece, size)
        after = ref.parse(o.final(), decode=False)
        new = after.h['nchunks'] - before.h['nchunks']
        fresh = len(o.final()) - before.chunks[-1]['pos']
        what = 'append %d of %d bytes to %d bytes' % (k, size, len(img))
        within(ctx, what + ' reads', o.r, room + 16)
        within(ctx, what + ' writes', o.w, fresh + 32 + 8 * after.h['nchunks'])
        within(ctx, what + ' reads of the new content', piece.r, size)
        within(ctx, what, b.compressed, new + 1, 'chunks compressed')
        within(ctx, what, b.decompressed, 1, 'chunks decompressed')
        ctx.event('appends')


def case_update(ctx):
    rng = ctx.rng
    data, s, img, f = target(ctx, meta=True)
    v = rng.choice([{'b': 2}, {'c': [1] * 5}])
    o = Counting(img)
    o.seek(32)
    with Blosc() as b:
        r = ctx.outcome(_rewrite_metadata_fp, o, v)
    size = f.offsets_pos - 32
    within(ctx, 'metadata update reads', o.r, size)
    within(ctx, 'metadata update writes', o.w, size)
    within(ctx, 'metadata update', b.compressed + b.decompressed, 0, 'chunks handled')
    ctx.event('updated' if r[0] == 'ok' else 'too_large')


def case_look(ctx):
    rng = ctx.rng
    data, s, img, f = target(ctx)
    i = Counting(img)
    k = rng.randrange(3)
    with Blosc() as b:
        if k == 0:
            ctx.must('reading the beginning', _read_beginning, i)
        elif k == 1:
            ctx.must('opening', CompressedFPSource, i)
        else:
            h = ctx.must('reading the header', _read_bloscpack_header, i)
            if h.metadata:
                ctx.must('reading the metadata', _read_metadata, i)
    within(ctx, 'looking at the beginning reads', i.r, f.first)
    within(ctx, 'looking at the beginning', b.decompressed, 0, 'chunks decompressed')


def case_refused(ctx):
    """What is refused is refused without doing the work first."""
    rng = ctx.rng
    data, s, img, f = target(ctx)
    k = rng.randrange(3)
    if k == 0:
        # more than there is room for
        need = f.h['max_app'] + rng.choice([1, 2, 100])
        chunk = f.h['chunk_size']
        size = chunk * need + chunk
        if size > 5 * 10 ** 7:
            size = chunk * (f.h['max_app'] + 2)
        o = Counting(img)

        class New(object):
            r = 0

            def read(self, n):
                self.r += n
                return bytes(n)
        new = New()
        with Blosc() as b:
            ctx.must_refuse('append beyond the reservation', append_fp, o, new, size)
        within(ctx, 'a refused append reads', o.r, needed(f, img) + 16)
        within(ctx, 'a refused append reads of the new content', new.r, chunk)
        within(ctx, 'a refused append', b.compressed, 1, 'chunks compressed')
        ctx.event('no_room')
    elif k == 1 and f.h['checksum'] != 'None':
        j = rng.randrange(len(f.chunks) // 2)
        p = f.chunks[j]['pos'] + 20
        i, o = Counting(img[:p] + bytes([img[p] ^ 1]) + img[p + 1:]), Counting()
        with Blosc() as b:
            ctx.must_refuse('a damaged chunk', lambda: unpack(CompressedFPSource(i),
                                                              PlainFPSink(o)))
        within(ctx, 'unpacking up to a damaged chunk reads', i.r,
               f.chunks[j + 1]['pos'] + 16 * (j + 1))
        within(ctx, 'unpacking up to a damaged chunk', b.decompressed, j, 'chunks decompressed')
        ctx.event('damaged')
    else:
        bad = rng.choice([b'BLPK' + img[4:], img[:4] + b'\x07' + img[5:],
                          img[:6] + b'\x5f' + img[7:]])
        i = Counting(bad)
        ctx.must_refuse('a foreign file', CompressedFPSource, i)
        within(ctx, 'refusing a foreign file reads', i.r, 32)
        ctx.event('foreign')


def case_array(ctx):
    rng = ctx.rng
    n = rng.randrange(100000, 400000)
    a = np.frombuffer(rng.randbytes(5000) * (n * 8 // 5000 + 1), '<i8')[:n]
    s = ops.random_spec(rng, 8 * (n // rng.choice([1, 7, 100])), meta=False)
    k = ops.kw(s)
    k.pop('metadata', None)
    o = Counting()
    ctx.note = {'spec': s, 'items': n}
    with Blosc() as b:
        ctx.must('packing an array', lambda: pack_ndarray(a, CompressedFPSink(o), **k))
    chunks = len(ref.parse(o.final(), decode=False).chunks)
    within(ctx, 'packing an array writes', o.w, len(o.final()) + 8 * chunks)
    within(ctx, 'packing an array', b.compressed, chunks, 'chunks compressed')
    i = Counting(o.final())
    with Blosc() as b:
        ctx.must('unpacking an array', lambda: unpack_ndarray(CompressedFPSource(i)))
    within(ctx, 'unpacking an array reads', i.r, len(o.final()) + 16 * chunks)
    within(ctx, 'unpacking an array', b.decompressed, chunks, 'chunks decompressed')


def process_io(warm, fn):
    """Characters a forked process reads and writes while it runs fn, having run warm before (which
    imports what is imported only when needed)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            null = os.open('/dev/null', os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.stdout = open(1, 'w', closefd=False)

            def now():
                sys.stdout.flush()
                with open('/proc/self/io', 'rb', buffering=0) as fp:
                    t = fp.read(1000).decode().split()
                return int(t[1]), int(t[3])

            def run(f):
                try:
                    f()
                except SystemExit as e:
                    if e.code:
                        os.write(w, b'exit %d' % e.code)
                        os._exit(1)
            now()
            run(warm)
            a = now()
            run(fn)
            b = now()
            os.write(w, b'%d %d' % (b[0] - a[0], b[1] - a[1]))
            code = 0
        except BaseException as e:
            os.write(w, repr(e).encode())
        finally:
            os._exit(code)
    os.close(w)
    out = b''
    while True:
        x = os.read(r, 1000)
        if not x:
            break
        out += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError('child failed: %r' % out)
    return [int(x) for x in out.split()]


def case_disk(ctx):
    """Whole operations and commands on files, as the system sees them."""
    from bloscpack import cli
    rng = ctx.rng
    data, s, img, f = target(ctx, meta=True)
    piece = rng.randbytes(rng.choice([1, f.h['chunk_size'], 2 * f.h['chunk_size']]))
    for d in ('warm', 'real'):
        os.mkdir(ctx.path(d))
        for n, c in (('x.blp', img), ('y', data), ('new', piece), ('m.json', b'{"new": 1}')):
            ops.write(ctx.path(d + '/' + n), c)

    def blpk(*a):
        def fn():
            sys.argv[:] = ['blpk', '-n', '1'] + list(a)
            cli.main()
        return fn
    part = needed(f, img)

    def kinds(d):
        p, q, new, m, out = [ctx.path(d + '/' + n) for n in ('x.blp', 'y', 'new', 'm.json', 'out')]
        return [
            ('blpk info', blpk('info', p), f.chunks[1]['pos'] + 5000, 5000),
            ('blpk info', blpk('info', p), f.chunks[1]['pos'] + 5000, 5000),
            ('append', lambda: append(p, new), part + len(piece), part + len(piece)),
            ('blpk append', blpk('append', p, new), part + len(piece), part + len(piece)),
            ('blpk append with metadata', blpk('append', '-m', m, p, new),
             2 * part + len(piece), 2 * part + len(piece)),
            ('blpk decompress', blpk('decompress', p, out), len(img) + 16 * len(f.chunks), len(data)),
            ('unpack_file_from_file', lambda: bp.unpack_file_from_file(p, out),
             len(img) + 16 * len(f.chunks), len(data)),
            ('unpack_bytes_from_file', lambda: bp.unpack_bytes_from_file(p),
             len(img) + 16 * len(f.chunks), 0),
            ('pack_file_to_file', lambda: bp.pack_file_to_file(q, out, **ops.kw(s)), len(data),
             len(img) + 8 * f.h['nchunks']),
            ('blpk compress', blpk('compress', '-z', '100K', q, out), len(data), len(data) + 10000)]
    real = kinds('real')
    k = rng.randrange(len(real))
    name, fn, r, w = real[k]
    warm = kinds('warm')[k][1]
    if name == 'blpk append with metadata' and f.meta['max_size'] < 30:
        return
    gotr, gotw = process_io(warm, fn)
    within(ctx, name + ' reads', gotr, r)
    within(ctx, name + ' writes', gotw, w)
    ctx.note['operation'] = name
    ctx.event('on_disk')


# ------------------------------------------------------- growth with the number of chunks

def job(name, n, rng_bytes):
    """A function to measure, for n chunks of 8 bytes; what it needs is made before."""
    k = dict(chunk_size=8)
    data = (rng_bytes * (n * 8 // len(rng_bytes) + 1))[:8 * n]
    a = np.frombuffer(data, '<i8')
    B, A = bp.BloscpackArgs, bp.BloscArgs(typesize=8, clevel=0)
    k['blosc_args'] = A
    if name == 'pack':
        return lambda: bp.pack_bytes_to_bytes(data, **k)
    if name == 'pack memory':
        chunks = [data[i:i + 8] for i in range(0, len(data), 8)]
        return lambda: pack(PlainMemorySource(chunks), CompressedMemorySink(), n, 8, 8,
                            blosc_args=A)
    if name == 'pack array':
        return lambda: bp.pack_ndarray_to_bytes(a, **k)
    if name == 'reserve':
        return lambda: bp.pack_bytes_to_bytes(
            b'12345678', bloscpack_args=B(max_app_chunks=n * 20), **k)
    img = image(n, data)
    if name == 'unpack':
        return lambda: bp.unpack_bytes_from_bytes(img)
    if name == 'unpack memory':
        sink = CompressedMemorySink()
        chunks = [data[i:i + 8] for i in range(0, len(data), 8)]
        pack(PlainMemorySource(chunks), sink, n, 8, 8, blosc_args=A)
        return lambda: unpack(CompressedMemorySource(sink), PlainMemorySink(n))
    if name == 'unpack to memory':
        return lambda: unpack(CompressedFPSource(io.BytesIO(img)), PlainMemorySink())
    if name == 'unpack array':
        m = {'dtype': "'<i8'", 'shape': [n], 'order': 'C', 'container': 'numpy'}
        img = image(n, data, m)
        return lambda: bp.unpack_ndarray_from_bytes(img)
    if name == 'append many':
        small = image(1, data[:8], app=n)
        return lambda: append_fp(io.BytesIO(small), io.BytesIO(data), len(data))
    if name == 'append to many':
        img = image(n, data, app=n)
        return lambda: append_fp(io.BytesIO(img), io.BytesIO(data[:16]), 16)
    if name == 'beginning':
        return lambda: _read_beginning(io.BytesIO(img))
    m = {'text': rng_bytes.hex() * (n // 10000)}
    if name == 'metadata':
        return lambda: bp.pack_bytes_to_bytes(b'12345678', metadata=m, **k)
    if name == 'metadata rewrite':
        img = bp.pack_bytes_to_bytes(b'12345678', metadata=m, **k)

        def run():
            fp = io.BytesIO(img)
            fp.seek(32)
            _rewrite_metadata_fp(fp, {'text': m['text'][:-3]}, codec='None')
        return run
    raise KeyError(name)


def image(n, data, meta=None, app=0):
    comp = [blosc.compress(data[i:i + 8], typesize=8, clevel=0)
            for i in range(0, len(data), 8)]
    sect = None
    if meta is not None:
        raw = json.dumps(meta).encode()
        sect = ref.meta_section(raw, len(raw), 0, 0, 1, len(raw) + 10)
    return ref.build(comp, checksum='adler32', offsets=True, max_app=app, typesize=8,
                     chunk_size=8, last_chunk=8, meta=sect)


SCALE = ['pack', 'pack memory', 'pack array', 'reserve', 'unpack', 'unpack memory',
         'unpack to memory', 'unpack array', 'append many', 'append to many', 'beginning',
         'metadata', 'metadata rewrite']
LINES = ['pack', 'pack memory', 'pack array', 'unpack', 'unpack memory', 'unpack array',
         'append many', 'append to many', 'beginning']


def cpu(fn):
    gc.collect()
    gc.disable()
    t = time.process_time()
    fn()
    t = time.process_time() - t
    gc.enable()
    return t


def case_scale(ctx, arg):
    name = SCALE[arg % len(SCALE)]
    n = 12000
    block = ctx.rng.randbytes(5000)
    small, large = job(name, n, block), job(name, 4 * n, block)
    cpu(small)
    ratio = []
    for _ in range(5):
        a = min(cpu(small), cpu(small))
        b = cpu(large)
        ratio.append(b / max(a, 0.002))
        ctx.event('measured')
        if ratio[-1] < 9:
            break
    ctx.note = {'operation': name, 'seconds': [round(a, 4), round(b, 4)], 'ratio': ratio}
    ctx.check(min(ratio) < 9, '%s: %.1f times the processor time for 4 times as many chunks' %
              (name, min(ratio)), seconds=(a, b))
    ctx.event('evaluations')
    ctx.event('scale')
    ctx.nontrivial('scale', name, arg)
    ctx.sample(ctx.note)


def lines(fn):
    """Lines executed in the library."""
    n = [0]
    pre = os.path.join(core.REPO, 'bloscpack')

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(pre) else None
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(old)
    return n[0]


def case_lines(ctx):
    rng = ctx.rng
    name = rng.choice(LINES)
    n = rng.randrange(20, 120)
    block = rng.randbytes(500)
    x = [lines(job(name, k * n, block)) for k in (1, 2, 4)]
    ctx.note = {'operation': name, 'chunks': n, 'lines': x}
    one, two = x[1] - x[0], (x[2] - x[1]) / 2.0
    ctx.check(two <= one * 1.2 + 50, '%s: the lines executed grow faster than the number of '
              'chunks' % name, lines=x, chunks=[n, 2 * n, 4 * n])
    ctx.event('line_counts')
