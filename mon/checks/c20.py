"""C20: memory use is bounded by the chunk size, not the file size."""
import contextlib
import gc
import io
import os
import resource
import sys
import tracemalloc

import bloscpack as bp
import numpy as np
from bloscpack.abstract_io import pack, unpack
from bloscpack.append import append, append_fp, _rewrite_metadata_fp, _seek_to_metadata
from bloscpack.args import calculate_nchunks
from bloscpack.file_io import (CompressedFPSink, CompressedFPSource, PlainFPSink,
                               PlainFPSource)

from .. import cli, gen, ops, ref

RULE = ('a case measures one operation on a file of many chunks: traced peak allocation and, '
        'at the file boundary, the size of every read and what was read between two writes; '
        'evaluations counts the measured operations; distinct by route, sizes and settings')
ASSUMPTIONS = ['allocations inside the Blosc library are only seen by the runs with a limited '
               'address space', 'bounds: 8 chunks, 2000 bytes per chunk and 400 kB altogether '
               '(typical on the current tree: 2 to 4 chunks)']
REQUIRE = {'measured': 250, 'reads': 5000, 'pack': 80, 'unpack': 60, 'append': 40, 'array': 40,
           'limited': 6, 'much_larger': 200, 'look': 40, 'slope': 30, 'cmd': 30}
MEM_LIMIT = 0


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 25}[tier]
    return ([('limited', n) for n in range(8 * min(q, 8))] +
            [('pack', n) for n in range(110 * q)] + [('unpack', n) for n in range(80 * q)] +
            [('append', n) for n in range(60 * q)] + [('array', n) for n in range(60 * q)] +
            [('look', n) for n in range(40 * q)] +
            [('slope', n) for n in range(30 * q)] + [('cmd', n) for n in range(30 * q)])


class Mon(object):
    """A file that counts what goes through it. Plain source: reads may not exceed a
    chunk; pair: what is read from `src` between two writes is bounded."""

    def __init__(self, fp, log, name):
        self.fp, self.log, self.name = fp, log, name

    def read(self, size=-1):
        b = self.fp.read(size)
        self.log.read(self.name, len(b), size)
        return b

    def readinto(self, buf):
        n = self.fp.readinto(buf)
        self.log.read(self.name, n, len(buf))
        return n

    def write(self, b):
        self.log.write(self.name, len(b))
        return self.fp.write(b)

    def __getattr__(self, k):
        return getattr(self.fp, k)

    def __iter__(self):
        raise io.UnsupportedOperation('line reads')


class Log(object):
    def __init__(self, src):
        self.src = src
        self.largest = self.asked = self.pending = self.most = self.n = self.total = 0

    def read(self, name, n, asked):
        if name != self.src:
            return
        self.n += 1
        self.total += n
        self.largest = max(self.largest, n)
        self.asked = max(self.asked, asked if asked and asked > 0 else 1 << 62)
        self.pending += n
        self.most = max(self.most, self.pending)

    def write(self, name, n):
        self.pending = 0


def measure(fn):
    gc.collect()
    tracemalloc.start()
    try:
        r = fn()
        _, peak = tracemalloc.get_traced_memory()
    finally:
        tracemalloc.stop()
    return peak, r


def judge(ctx, what, peak, chunk, n, app, total, extra=0):
    # 2000 bytes for each chunk of the file, 60 for each reserved entry
    bound = 8 * chunk + 2000 * n + 60 * app + 400000 + extra
    ctx.event('measured')
    ctx.event('evaluations')
    if total + extra > 2 * bound:
        ctx.event('much_larger')
    ctx.check(peak <= bound, '%s of %d bytes in %d chunks of %d needed %d bytes of memory, '
              'allowed are %d' % (what, total, n, chunk, peak, bound))
    worst = ctx.state.setdefault('worst', {})
    worst[what] = max(worst.get(what, 0), round((peak - extra) / float(bound - extra), 3))


def sizes(ctx):
    rng = ctx.rng
    chunk = rng.choice([30000, 65536, 1 << 17, 100001, 1 << 18])
    n = rng.choice([60, 90, 150]) if chunk < 1 << 17 else rng.choice([40, 60])
    return chunk, n, chunk * n - rng.choice([0, 1, chunk // 2])


def blob(rng, size):
    """Cheap to make, partly compressible."""
    k = rng.randrange(3)
    if k == 0:
        return rng.randbytes(size)
    if k == 1:
        return b'\0' * size
    part = rng.randbytes(50000) + b'text ' * 10000
    return (part * (size // len(part) + 1))[:size]


def settings(ctx, chunk):
    rng = ctx.rng
    s = ops.random_spec(rng, chunk)
    s['blosc'] = dict(gen.blosc_args(rng), cname=rng.choice(['lz4', 'blosclz', 'zstd']),
                      clevel=rng.choice([0, 1, 5]))
    if s['bpack'] and s['bpack']['max_app'][0] == 'int':
        s['bpack']['max_app'] = ('int', min(1000, s['bpack']['max_app'][1]))
    if s['ma']:
        s['ma']['max_meta'] = ('add', 100)
    return s


def app_of(s, n):
    b = s['bpack'] or {}
    if b.get('offsets') is False:
        return 0
    return gen.max_app_expected(b.get('max_app', ('default', None)), n)


def case(ctx, kind, arg):
    ctx.note = {'kind': kind}
    globals()['case_' + kind](ctx)
    ctx.sample(ctx.note)


def case_pack(ctx):
    rng = ctx.rng
    chunk, n, size = sizes(ctx)
    s = settings(ctx, chunk)
    k = rng.randrange(3)
    i, o = ctx.path('in'), ctx.path('out')
    data = blob(rng, size)
    log = None
    if k != 1:
        ops.write(i, data)
        del data
    route = ['pack_file_to_file', 'pack_bytes_to_file', 'pack'][k]
    ctx.note.update(route=route, chunk=chunk, n=n, size=size, spec=s)
    kw = ops.kw(s)
    if k == 0:
        peak, _ = measure(lambda: bp.pack_file_to_file(i, o, **kw))
    elif k == 1:
        peak, _ = measure(lambda: bp.pack_bytes_to_file(data, o, **kw))
    else:
        kw.pop('chunk_size', None)
        c = calculate_nchunks(size, chunk)
        log = Log('in')
        with open(i, 'rb') as fi, open(o, 'w+b') as fo:
            peak, _ = measure(lambda: pack(PlainFPSource(Mon(fi, log, 'in')),
                                           CompressedFPSink(Mon(fo, log, 'out')), *c, **kw))
    judge(ctx, route, peak, chunk, n, app_of(s, n), size)
    ctx.event('pack')
    if log:
        ctx.event('reads', log.n)
        ctx.check(log.largest <= chunk, 'pack read %d bytes at once, the chunk size is %d' %
                  (log.largest, chunk))
        ctx.check(log.most <= 2 * chunk, 'pack read %d bytes without writing any' % log.most)
        ctx.check(log.total == size, 'pack read %d bytes of %d' % (log.total, size))
    ctx.nontrivial(route, chunk, n, size, s)


def packed(ctx, name, chunk, n, size, app=None, typesize=8, meta=None):
    """Made piece by piece without the library."""
    rng = ctx.rng
    import blosc
    data = blob(rng, size)
    a = dict(typesize=typesize, clevel=rng.choice([0, 1, 5]), shuffle=True,
             cname=rng.choice(['lz4', 'blosclz']))
    comp = [blosc.compress(data[i:i + chunk], **a) for i in range(0, size, chunk)]
    app = rng.choice([0, 10, 500]) if app is None else app
    img = ref.build(comp, checksum=rng.choice(gen.CHECKSUMS), max_app=app, typesize=typesize,
                    offsets=app > 0 or rng.random() < 0.6, chunk_size=chunk,
                    last_chunk=size - chunk * (n - 1),
                    meta=None if meta is None else ref.foreign_meta(rng, meta, 500))
    return ops.write(ctx.path(name), img), app


def case_unpack(ctx):
    rng = ctx.rng
    chunk, n, size = sizes(ctx)
    p, app = packed(ctx, 'x.blp', chunk, n, size)
    o = ctx.path('out')
    log = None
    if rng.random() < 0.5:
        route = 'unpack_file_from_file'
        peak, _ = measure(lambda: bp.unpack_file_from_file(p, o))
    else:
        route = 'unpack'
        log = Log('in')
        with open(p, 'rb') as fi, open(o, 'wb') as fo:
            peak, _ = measure(lambda: unpack(CompressedFPSource(Mon(fi, log, 'in')),
                                             PlainFPSink(Mon(fo, log, 'out'))))
    ctx.note.update(route=route, chunk=chunk, n=n, size=size)
    ctx.check(os.path.getsize(o) == size, 'unpack wrote %d bytes' % os.path.getsize(o))
    judge(ctx, route, peak, chunk, n, app, size)
    ctx.event('unpack')
    if log:
        most = max(chunk + 16 + 64, 8 * (n + app))
        ctx.event('reads', log.n)
        ctx.check(log.largest <= most, 'unpack read %d bytes at once, a chunk has at most %d' %
                  (log.largest, chunk + 80))
        ctx.check(log.most <= 2 * (chunk + 96) + 8 * (n + app) + 32,
                  'unpack read %d bytes without writing any' % log.most)
    ctx.nontrivial(route, chunk, n, size, app)


def case_append(ctx):
    rng = ctx.rng
    chunk, n, size = sizes(ctx)
    # many chunks are there already, or many are appended
    grow = rng.random() < 0.6
    n0, size0 = (2, 2 * chunk - rng.choice([0, 5])) if grow else (n, size)
    p, app = packed(ctx, 'x.blp', chunk, n0, size0, app=n + 5)
    new = size if grow else rng.choice([10, chunk + 3])
    q = ops.write(ctx.path('new'), blob(rng, new))
    log = None
    if rng.random() < 0.5:
        route = 'append'
        peak, _ = measure(lambda: append(p, q))
    else:
        route = 'append_fp'
        log = Log('new')
        with open(p, 'r+b') as fo, open(q, 'rb') as fi:
            peak, _ = measure(lambda: append_fp(Mon(fo, log, 'orig'), Mon(fi, log, 'new'), new))
    ctx.note.update(route=route, chunk=chunk, n=n0, new=new)
    f = ref.parse(ops.read(p), decode=False)
    ctx.check(sum(c['nbytes'] for c in f.chunks) == size0 + new, 'append lost data')
    judge(ctx, route, peak, chunk, len(f.chunks), app, max(size0, new))
    ctx.event('append')
    if log:
        ctx.event('reads', log.n)
        ctx.check(log.largest <= chunk, 'append read %d bytes at once, the chunk size is %d' %
                  (log.largest, chunk))
        ctx.check(log.most <= 2 * chunk, 'append read %d bytes without writing any' % log.most)
    ctx.nontrivial(route, chunk, n0, new)


def case_array(ctx):
    """Arrays need the array (once, where it is created) and a bounded rest."""
    rng = ctx.rng
    chunk, n, size = sizes(ctx)
    dt = np.dtype(rng.choice(['<i4', '<f8', '|u1', '<c16']))
    chunk -= chunk % dt.itemsize
    items = size // dt.itemsize
    n = -(-items * dt.itemsize // chunk)
    p = ctx.path('a.blp')
    arr = np.frombuffer(blob(rng, items * dt.itemsize), dt)
    if rng.random() < 0.3:
        arr = arr[:items - items % 4].reshape(4, -1)
        if rng.random() < 0.5:
            arr = np.asfortranarray(arr)
    pack_peak, _ = measure(lambda: bp.pack_ndarray_to_file(arr, p, chunk_size=chunk))
    judge(ctx, 'pack_ndarray_to_file', pack_peak, chunk, n, 10 * n, arr.nbytes)
    peak, got = measure(lambda: bp.unpack_ndarray_from_file(p))
    ctx.check(got.tobytes() == arr.tobytes(), 'array differs')
    judge(ctx, 'unpack_ndarray_from_file', peak, chunk, n, 10 * n, arr.nbytes, arr.nbytes)
    ctx.event('array')
    ctx.note.update(chunk=chunk, n=n, size=arr.nbytes)
    ctx.nontrivial('array', dt.str, chunk, n)


def case_slope(ctx):
    """What another chunk costs once there are thousands: its offset, nothing of its content.
    (On the current tree 175 bytes for packing and 70 for each entry read.)"""
    rng = ctx.rng
    chunk = rng.choice([64, 1000, 5000])
    n = rng.choice([1000, 1500])
    route = rng.choice(['pack_file_to_file', 'pack_bytes_to_file', 'pack_ndarray_to_file',
                        'unpack_file_from_file', 'unpack_ndarray_from_file', 'append', 'first',
                        'blpk c', 'blpk d', 'blpk a', 'blpk i'])
    reserve = rng.choice([0, 0, 1])      # entries kept free for each chunk
    opts = dict(checksum=rng.choice(['None', 'adler32', 'sha256']))
    small = ops.write(ctx.path('small'), rng.randbytes(chunk * 2))
    i, o, u = ctx.path('in'), ctx.path('o.blp'), ctx.path('u')
    p = ctx.path('p.blp')
    peaks = []
    for k in (n, 4 * n):
        data = blob(rng, k * chunk)
        ops.write(i, data)
        arr = np.frombuffer(data, 'u1')
        b = bp.BloscpackArgs(max_app_chunks=reserve * k, **opts)
        extra = 0
        for f in (o, u):
            if os.path.exists(f):
                os.unlink(f)
        if route in ('append', 'blpk a'):
            bp.pack_file_to_file(small, p, chunk_size=chunk, bloscpack_args=bp.BloscpackArgs(
                max_app_chunks=k + 5, **opts))
        elif not route.startswith(('pack', 'blpk c')):
            bp.pack_ndarray_to_file(arr, p, chunk_size=chunk, bloscpack_args=b)
        fn = {'pack_file_to_file': lambda: bp.pack_file_to_file(
                  i, o, chunk_size=chunk, bloscpack_args=b),
              'pack_bytes_to_file': lambda: bp.pack_bytes_to_file(
                  data, o, chunk_size=chunk, bloscpack_args=b),
              'pack_ndarray_to_file': lambda: bp.pack_ndarray_to_file(
                  arr, o, chunk_size=chunk, bloscpack_args=b),
              'unpack_file_from_file': lambda: bp.unpack_file_from_file(p, u),
              'unpack_ndarray_from_file': lambda: bp.unpack_ndarray_from_file(p),
              'append': lambda: append(p, i),
              'first': lambda: first(p),
              'blpk c': lambda: run_main(ctx, ['-n', '1', 'c', '-z', str(chunk), i, o]),
              'blpk d': lambda: run_main(ctx, ['-n', '1', 'd', p, u]),
              'blpk a': lambda: run_main(ctx, ['-n', '1', 'a', p, i]),
              'blpk i': lambda: run_main(ctx, ['-n', '1', 'i', p])}[route]
        if route == 'unpack_ndarray_from_file':
            extra = len(data)
        peaks.append(measure(fn)[0] - extra)
    each = (peaks[1] - peaks[0]) / (3.0 * n)
    entries = 1 + (reserve if not route.startswith(('pack', 'append', 'blpk a', 'blpk c')) else 0)
    bound = 140 * entries if route in ('unpack_file_from_file', 'unpack_ndarray_from_file',
                                       'first', 'blpk d', 'blpk i') else 350
    ctx.note.update(route=route, chunk=chunk, n=n, each=round(each), bound=bound)
    ctx.event('slope')
    ctx.event('measured')
    ctx.event('evaluations')
    ctx.check(each <= bound, '%s needs %d bytes more for every chunk of %d, allowed are %d' %
              (route, each, chunk, bound), peaks=peaks)
    worst = ctx.state.setdefault('worst', {})
    worst['slope ' + route] = max(worst.get('slope ' + route, 0), round(each / bound, 3))
    ctx.nontrivial('slope', route, chunk, n, reserve, opts)


def first(p):
    with open(p, 'rb') as fp:
        return next(iter(CompressedFPSource(fp)))


def run_main(ctx, args):
    """blpk within this process; its output is thrown away."""
    from bloscpack import cli as c, log
    argv = sys.argv
    sys.argv = ['blpk'] + args
    try:
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
            c.main()
    finally:
        sys.argv = argv
        log.LEVEL = log.NORMAL
        log.PREFIX = 'bloscpack.py'


def case_look(ctx):
    """What needs the beginning of a file only."""
    rng = ctx.rng
    chunk, n, size = sizes(ctx)
    value = rng.choice([{'a': 1}, {'long': 'x' * 1000}])
    p, app = packed(ctx, 'x.blp', chunk, n, size, meta=value)
    route = rng.choice(['info', 'info', 'source', 'first', 'update'])
    ctx.note.update(route=route, chunk=chunk, n=n, size=size)
    log = None
    if route == 'info':
        peak, _ = measure(lambda: run_main(ctx, [rng.choice(['info', 'i']), p]))
    else:
        log = Log('in')
        with open(p, 'r+b') as fp:
            m = Mon(fp, log, 'in')
            if route == 'source':
                peak, _ = measure(lambda: CompressedFPSource(m))
            elif route == 'first':
                peak, _ = measure(lambda: next(iter(CompressedFPSource(m))))
            else:
                def update():
                    _seek_to_metadata(m)
                    _rewrite_metadata_fp(m, {'b': 2})
                peak, _ = measure(update)
        ctx.event('reads', log.n)
        most = 3000 + 8 * (n + app) + (chunk + 200 if route == 'first' else 0)
        ctx.check(log.total <= most, '%s read %d bytes' % (route, log.total))
    judge(ctx, route, peak, chunk if route in ('info', 'first') else 0, n, app, size)
    ctx.event('look')
    ctx.nontrivial(route, chunk, n, size, app)


def case_cmd(ctx):
    """The command line."""
    rng = ctx.rng
    chunk, n, size = sizes(ctx)
    x = rng.choice('cda')
    o = ctx.path('out')
    app = 0
    if x == 'c':
        i = ops.write(ctx.path('in'), blob(rng, size))
        args = ['c', '-z', str(chunk), '-l', rng.choice(['0', '1', '5']), i, o]
        app = 10 * n
    elif x == 'd':
        i, app = packed(ctx, 'x.blp', chunk, n, size)
        args = ['d', i, o]
    else:
        i, app = packed(ctx, 'x.blp', chunk, 2, 2 * chunk, app=n + 5)
        args = ['a', i, ops.write(ctx.path('new'), blob(rng, size))]
    args = rng.choice([[], ['-v']]) + ['-n', '1'] + args
    ctx.note.update(command=args, chunk=chunk, n=n)
    peak, _ = measure(lambda: run_main(ctx, args))
    judge(ctx, 'blpk ' + x, peak, chunk, n + 2, app, size)
    ctx.event('cmd')
    ctx.nontrivial(x, chunk, n, size, app)


def case_limited(ctx):
    """blpk in a process whose address space may hardly grow."""
    rng = ctx.rng
    size = rng.choice([96, 120]) << 20
    room = 40 << 20
    with open(ctx.path('big'), 'wb') as fp:
        fp.truncate(size)
    x = rng.choice('cda')

    def before():
        with open('/proc/self/statm') as fp:
            now = int(fp.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (now + room, now + room))
    pre = None
    if x == 'c':
        args = ['-n', '1', 'c', '-z', rng.choice(['1M', '512K']), 'big', 'out']
    else:
        pre = cli.forked(['-n', '1', 'c', '-z', '1M', 'big', 'big.blp'], ctx.dir)
        ctx.check(pre.rc == 0, 'blpk c failed: %r' % pre)
        args = ['-n', '1', 'd', 'big.blp', 'out'] if x == 'd' else \
            ['-n', '1', 'a', 'big.blp', 'big']
    ctx.note['command'] = args
    r = cli.forked(args, ctx.dir, before=before)
    ctx.event('limited')
    ctx.event('evaluations')
    ctx.check(r.rc == 0, 'blpk %s of %d MB does not work in %d MB more than at its start: %r' %
              (' '.join(args), size >> 20, room >> 20, r))
    ctx.nontrivial(args, size)


def teardown(ctx):
    for k, v in ctx.state.get('worst', {}).items():
        ctx.sample({'largest share of the bound': {k: v}})
