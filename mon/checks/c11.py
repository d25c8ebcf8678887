"""C11: an interrupted or failing pack is recognisable and never a success."""
import io
import os
import random
import resource
import signal
import time

import blosc
import numpy as np

import bloscpack as bp
from bloscpack.abstract_io import pack, unpack
from bloscpack.append import append_fp
from bloscpack.args import calculate_nchunks
from bloscpack.file_io import (PlainFPSource, PlainFPSink, CompressedFPSource,
                               CompressedFPSink)
from bloscpack.memory_io import PlainMemorySource, PlainMemorySink
from bloscpack.numpy_io import pack_ndarray, unpack_ndarray

from .. import cli, fpmon, gen, ops, ref

RULE = ('an evaluation is one crash image (the output after the first k writes of a recorded '
        'pack, the last one whole or torn, or what a killed process left on disk) given to '
        'the checker and readers, or one operation run with one file operation failing; '
        'distinct by (pack, crash point) and (operation, failing operation)')
ASSUMPTIONS = ['file contents after a crash are a prefix of the writes in the order issued',
               'an input that merely turns out shorter than announced is not an I/O error (C28)']
REQUIRE = {'crash_images': 8000, 'torn': 2500, 'partial_refused': 5000, 'sequential': 60,
           'offsets_monitored': 3000, 'fault_write': 1500, 'fault_read': 800,
           'fault_seek': 250, 'unpack_faults': 1000, 'append_faults': 400,
           'array_faults': 200, 'interrupted': 200, 'killed': 60, 'killed_with_data': 15,
           'device_full': 40, 'size_limit': 100, 'cli_errors': 25,
           'complete_without_offsets': 100, 'many_chunks': 40, 'interrupt_keyboard': 30}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 60}[tier]
    return ([('trace', n) for n in range(600 * q)] + [('many', n) for n in range(40 * q)] + [('fault', n) for n in range(200 * q)] +
            [('ufault', n) for n in range(150 * q)] + [('kill', n) for n in range(80 * q)] +
            [('full', n) for n in range(60 * q)] + [('afault', n) for n in range(60 * q)] +
            [('timed', n) for n in range(16 * q)] + [('clifull', n) for n in range(24 * q)])


class Job(object):
    """One pack run that can be repeated on any output."""

    def __init__(self, ctx, maxsize=4000, many=False):
        rng = ctx.rng
        size, chunk = gen.size_and_chunk(rng, big=maxsize)
        while size // max(1, chunk) > 12:
            size //= 2
        if many:
            chunk = rng.choice([8, 16, 24])
            size = chunk * rng.choice([rng.randrange(130, 700), rng.randrange(600, 2500),
                                       255, 256, 257, 513, 1025]) - rng.randrange(8)
        self.data = gen.data(rng, size)
        self.array = rng.random() < 0.2
        if self.array:
            item = rng.choice([1, 2, 4, 8])
            n = max(1, size // item)
            self.arr = np.frombuffer(bytearray((self.data + bytes(8))[:n * item]),
                                     'V%d' % item if rng.random() < 0.2 else 'u%d' % item)
            self.data = self.arr.tobytes()
            chunk = max(item, chunk // item * item)
        self.s = ops.random_spec(rng, chunk, meta=not self.array)
        self.s['ma'] = None if self.array else self.s['ma']
        if self.s['bpack']:
            m = self.s['bpack']['max_app']
            self.s['bpack']['max_app'] = m if m[0] != 'int' else ('int', min(m[1], 20))
        if self.s['ma'] and self.s['ma']['max_meta'][0] == 'int':
            self.s['ma']['max_meta'] = ('int', 5000)
            self.s['meta'] = {'m': 1} if self.s['meta'] is not None else None
        if self.s['meta'] is not None and len(repr(self.s['meta'])) > 300:
            self.s['meta'] = {'short': [1, None]}
        self.mem = not self.array and rng.random() < 0.2
        ctx.note = dict(spec=self.s, size=len(self.data), array=self.array)

    def run(self, out, inp=None):
        s = self.s
        if self.array:
            k = ops.kw(s)
            k.pop('metadata', None), k.pop('metadata_args', None)
            pack_ndarray(self.arr, CompressedFPSink(out), **k)
            return
        n, c, last = calculate_nchunks(len(self.data), s['chunk'])
        if inp is None and self.mem:
            ch = [self.data[i * c:(i + 1) * c] for i in range(n - 1)] + \
                [self.data[(n - 1) * c:]]
            src = PlainMemorySource(ch)
        else:
            src = PlainFPSource(inp if inp is not None else io.BytesIO(self.data))
        pack(src, CompressedFPSink(out), n, c, last, **ops.kw_pack(s))


READ = [u for u in ops.UNPACK_IMG if 'file' not in u.__name__]
READ_A = READ + [ops.nu_bytes, ops.nu_fp]


def append_reader(d, im):
    """An append has to decode the last chunk."""
    fp = io.BytesIO(im.img)
    append_fp(fp, io.BytesIO(b'zz'), 2)
    return 'appended'


def partial(ctx, img, f, final, what, complete_ok=True):
    """img: what is left of a pack that would have produced final."""
    ctx.event('crash_images')
    ctx.event('evaluations')
    complete = len(img) >= f.end and img[f.first:f.end] == final[f.first:f.end]
    if not complete and f.h['offsets']:
        ctx.event('offsets_monitored')
        got = img[f.offsets_pos:f.first]
        ctx.check(got == b'\xff' * len(got), '%s: offsets are filled in (%s) although '
                  'chunks are missing' % (what, got[:64].hex()))
    if complete:
        if img == final:
            return True
        ctx.event('complete_without_offsets')
        return True
    readers = READ_A if what.startswith('array') else READ
    rng = ctx.rng
    some = [rng.choice(readers)]
    if rng.random() < 0.15:
        some = list(readers) + ([append_reader] if f.h['offsets'] else [])
    if rng.random() < 0.06:
        some.append(rng.choice([ops.u_file_file, ops.u_bytes_file]))
    for u in some:
        ctx.must_refuse('%s: partial file of %d of %d bytes read by %s' %
                        (what, len(img), len(final), u.__name__), u, ctx.dir, ops.Img(img))
        ctx.event('partial_refused')
    return False


def case(ctx, kind, arg):
    globals()['case_' + kind](ctx)


def case_many(ctx):
    """Hundreds of chunks, looked at here and there."""
    case_trace(ctx, True)
    ctx.event('many_chunks')


def case_trace(ctx, many=False):
    job = Job(ctx, many=many)
    rng = ctx.rng
    out = fpmon.Rec()
    ctx.must('packing', job.run, out)
    final = out.getvalue()
    f = ref.conform(final)
    ws = out.writes()
    ctx.event('writes_recorded', len(ws))
    what = 'array pack' if job.array else 'pack'
    if not f.h['offsets']:
        ctx.event('sequential')
        end = 0
        for k, pos, b in ws:
            ctx.check(k == 'write' and pos == end, '%s without offsets wrote at %d after '
                      '%d bytes' % (what, pos, end))
            end += len(b)
    img = b''
    some = None
    last = max([i for i, w in enumerate(ws) if w[0] == 'write' and w[1] >= f.first] or [0])
    if many:
        some = set(rng.sample(range(len(ws)), 30) + list(range(len(ws)))[-3:])
    for i, w in enumerate(ws):
        # long runs of one-byte preallocation: look at some
        boring = len(w[2]) <= 1 and f.meta is not None and w[1] < f.offsets_pos \
            if w[0] == 'write' else False
        look = i in some if many else not boring or rng.random() < 0.02
        if f.h['offsets'] and i < last and w[0] == 'write':
            # nothing but -1 is written to the offsets before the chunks are
            part = w[2][max(0, f.offsets_pos - w[1]):max(0, f.first - w[1])]
            ctx.check(part == b'\xff' * len(part), '%s: offsets are filled in by write %d of '
                      '%d, before the last chunk' % (what, i, len(ws)))
        n = len(w[2]) if w[0] == 'write' else 0
        if n > 1 and look:
            cuts = range(1, n) if n < 24 and rng.random() < 0.2 else \
                sorted(set(rng.randrange(1, n) for _ in range(rng.randrange(1, 4))))
            for c in cuts:
                ctx.event('torn')
                done = partial(ctx, fpmon.apply(img, w, c), f, final,
                               '%s stopped in write %d' % (what, i))
        img = fpmon.apply(img, w)
        if look:
            partial(ctx, img, f, final, '%s stopped after write %d' % (what, i))
    ctx.check(img == final, 'recorded writes do not add up')
    ctx.nontrivial(len(job.data), job.s, len(ws))
    ctx.sample(dict(ctx.note, writes=len(ws)))


def count(trace, kinds):
    return sum(1 for t in trace if t[0] in kinds)


def points(rng, n, k=12):
    return list(range(n)) if n <= k else sorted(
        set([0, 1, 2, 3, n - 1, n - 2, n - 3] + [rng.randrange(n) for _ in range(k)]))


def case_fault(ctx):
    """Pack with one operation failing (once, or from then on)."""
    job = Job(ctx, 2000)
    rng = ctx.rng
    out, inp = fpmon.Rec(), fpmon.Rec(job.data)
    use_in = None if job.array or job.mem else inp
    ctx.must('packing', job.run, out, use_in)
    final = out.getvalue()
    f = ref.conform(final)
    what = 'array pack' if job.array else 'pack'
    for kinds in (('write',), ('seek', 'tell'), ('read',)):
        tr = inp.trace if kinds == ('read',) else out.trace
        n = count(tr, kinds)
        for i in points(rng, n):
            mode = rng.choice([fpmon.nth, fpmon.once])
            amount = True
            if kinds == ('write',) and rng.random() < 0.4:
                amount = rng.randrange(0, 40)
            elif rng.random() < 0.3:
                amount = fpmon.error(rng)
            if kinds == ('read',):
                o, i2 = fpmon.Rec(), fpmon.Rec(job.data, mode(kinds, i, amount))
                if use_in is None:
                    continue
            else:
                o, i2 = fpmon.Rec(fault=mode(kinds, i, amount)), \
                    (fpmon.Rec(job.data) if use_in is not None else None)
            w = '%s with %s %d failing' % (what, kinds[0], i)
            surfaced(ctx, w, amount, job.run, o, i2)
            ctx.event('evaluations')
            ctx.event('fault_' + kinds[0])
            if job.array:
                ctx.event('array_faults')
            o.fault = None
            partial(ctx, o.getvalue(), f, final, w)
            ctx.nontrivial(len(job.data), job.s, kinds, i)


def surfaced(ctx, what, amount, fn, *a):
    """The injected error has to come out of the call."""
    try:
        fn(*a)
    except KeyboardInterrupt as e:
        ctx.event('interrupted')
        ctx.event('interrupt_keyboard')
        if str(e) != 'injected':
            raise
        return
    except MemoryError as e:
        ctx.event('interrupted')
        return
    except Exception as e:
        if isinstance(e, type(amount)):
            ctx.event('interrupted')
        ctx.event('refused:' + type(e).__name__)
        return
    ctx.fail(what + ': the error was swallowed and the operation succeeded')


def case_ufault(ctx):
    """Unpack with one operation failing on either side."""
    job = Job(ctx, 2000)
    rng = ctx.rng
    out = io.BytesIO()
    ctx.must('packing', job.run, out)
    img = out.getvalue()

    def to_fp(i, o):
        unpack(CompressedFPSource(i), PlainFPSink(o))

    def to_mem(i, o):
        src = CompressedFPSource(i)
        unpack(src, PlainMemorySink(src.nchunks))

    def to_array(i, o):
        unpack_ndarray(CompressedFPSource(i))
    fns = [to_fp, to_mem] + ([to_array] if job.array else [])
    for fn in fns:
        i, o = fpmon.Rec(img), fpmon.Rec()
        ctx.must('unpacking', fn, i, o)
        for side, kinds in ((0, ('read',)), (0, ('seek', 'tell')), (1, ('write', 'seek'))):
            for p in points(rng, count((i, o)[side].trace, kinds), 8):
                mode = rng.choice([fpmon.nth, fpmon.once])
                amount = rng.choice([True, fpmon.error(rng)])
                if side == 1 and rng.random() < 0.4:
                    amount = rng.randrange(0, 100)
                fault = mode(kinds, p, amount)
                i2 = fpmon.Rec(img, fault if side == 0 else None)
                o2 = fpmon.Rec(fault=fault if side == 1 else None)
                surfaced(ctx, '%s with %s %d failing' % (fn.__name__, kinds[0], p), amount,
                         fn, i2, o2)
                ctx.event('unpack_faults')
                ctx.event('evaluations')
                ctx.event('fault_' + kinds[0])
                if job.array:
                    ctx.event('array_faults')
                ctx.check(i2.getvalue() == img, 'reading wrote to the input')
                ctx.nontrivial(len(job.data), job.s, fn.__name__, kinds, p)


def case_afault(ctx):
    """Append with one operation failing: the error surfaces."""
    rng = ctx.rng
    from .. import hist
    img, data, s = hist.start(ctx)
    m = hist.Model(img)
    for _ in range(20):
        size = hist.piece_size(rng, m)
        if m.fits(size) and size:
            break
    else:
        return
    piece = gen.data(rng, size)
    o, n = fpmon.Rec(img), fpmon.Rec(piece)
    ctx.must('append', append_fp, o, n, size)
    for side, kinds in ((0, ('read',)), (0, ('seek', 'tell')), (0, ('write',)), (1, ('read',))):
        for p in points(rng, count((o, n)[side].trace, kinds), 8):
            amount = rng.choice([True, fpmon.error(rng)])
            fault = rng.choice([fpmon.nth, fpmon.once])(kinds, p, amount)
            o2 = fpmon.Rec(img, fault if side == 0 else None)
            n2 = fpmon.Rec(piece, fault if side == 1 else None)
            surfaced(ctx, 'append with %s %d failing' % (kinds[0], p), amount,
                     append_fp, o2, n2, size)
            ctx.event('append_faults')
            ctx.event('evaluations')
            ctx.event('fault_' + kinds[0])
            ctx.nontrivial('append', size, kinds, p, side)


def child(fn):
    """Runs fn in a forked child; returns the exit status (-signal)."""
    pid = os.fork()
    if pid == 0:
        rc = 77
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
            rc = fn()
        except BaseException as e:
            rc = 50 if isinstance(e, (Exception, KeyboardInterrupt)) else 51
        finally:
            os._exit(rc or 0)
    return pid


def wait(pid):
    st = os.waitpid(pid, 0)[1]
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)


def real_run(ctx, rng, data, s, d):
    """(function, output path): packs to a real file."""
    i, o = os.path.join(d, 'k.in'), os.path.join(d, 'k.blp')
    k = rng.randrange(4)
    ops.write(i, data)
    if k == 0:
        return (lambda: bp.pack_file_to_file(i, o, **ops.kw(s))), o
    if k == 1:
        return (lambda: bp.pack_bytes_to_file(data, o, **ops.kw(s))), o
    if k == 2:
        a = np.frombuffer(bytearray(data), 'u1')
        kw = ops.kw(s)
        kw.pop('metadata', None), kw.pop('metadata_args', None)
        kw['blosc_args'] = None
        return (lambda: bp.pack_ndarray_to_file(a, o, **kw)), o

    def realfp():
        with open(i, 'rb') as fi, open(o, 'w+b') as fo:
            n, c, last = calculate_nchunks(len(data), s['chunk'])
            pack(PlainFPSource(fi), CompressedFPSink(fo), n, c, last, **ops.kw_pack(s))
    return realfp, o


def big_job(ctx, lo=3, hi=12, bytes_=30000):
    rng = ctx.rng
    n = rng.randrange(lo, hi)
    chunk = rng.choice([100, 5000, bytes_])
    data = gen.data(rng, chunk * n - rng.randrange(chunk), rng.choice(['random', 'mixed']))
    bpk = gen.bloscpack_args(rng)
    bpk['max_app'] = ('int', rng.choice([0, 3]))
    s = ops.spec(chunk, gen.blosc_args(rng), bpk, rng.choice([None, {'k': 1}]), None)
    ctx.note = dict(spec=s, size=len(data))
    return data, s, n


def left(ctx, path, final, f, what):
    if not os.path.exists(path):
        ctx.event('nothing_left')
        return
    img = ops.read(path)
    if len(img) > f.first:
        ctx.event('killed_with_data')
    partial(ctx, img, f, final, what)


def case_kill(ctx):
    """The process disappears while it compresses chunk n."""
    rng = ctx.rng
    data, s, nchunks = big_job(ctx)
    fn, path = real_run(ctx, rng, data, s, ctx.dir)
    at = rng.randrange(nchunks)

    def run(at):
        real = blosc.compress
        seen = [0]

        def stop(*a, **k):
            if seen[0] == at:
                os._exit(9)
            seen[0] += 1
            return real(*a, **k)
        blosc.compress = stop
        fn()
        return 0
    ctx.check(wait(child(lambda: run(-1))) == 0, 'packing failed')
    final = ops.read(path)
    f = ref.conform(final)
    if rng.random() < 0.5:
        os.unlink(path)
    rc = wait(child(lambda: run(at)))
    if rc == 0:
        ctx.event('kill_missed')
        return
    ctx.event('killed')
    ctx.nontrivial('kill', len(data), s, at)
    left(ctx, path, final, f, 'process killed at chunk %d of %d' % (at, nchunks))


def case_timed(ctx):
    """SIGKILL at some moment."""
    rng = ctx.rng
    data, s, nchunks = big_job(ctx, 20, 40, 60000)
    fn, path = real_run(ctx, rng, data, s, ctx.dir)
    t0 = time.time()
    ctx.check(wait(child(lambda: fn() and 0)) == 0, 'packing failed')
    total = time.time() - t0
    final = ops.read(path)
    f = ref.conform(final)
    for _ in range(4):
        if os.path.exists(path):
            os.unlink(path)
        pid = child(lambda: fn() and 0)
        time.sleep(total * rng.random())
        os.kill(pid, signal.SIGKILL)
        if wait(pid) == -9:
            ctx.event('killed')
            left(ctx, path, final, f, 'process killed by a signal')


def case_full(ctx):
    """A full device, or a limit on the size of files, reached anywhere."""
    rng = ctx.rng
    data, s, nchunks = big_job(ctx)
    fn, path = real_run(ctx, rng, data, s, ctx.dir)
    ctx.check(wait(child(lambda: fn() and 0)) == 0, 'packing failed')
    final = ops.read(path)
    f = ref.conform(final)
    os.unlink(path)
    # device full
    os.symlink('/dev/full', path)
    rc = wait(child(lambda: fn() and 0))
    ctx.check(rc == 50, 'packing to a full device did not raise (%d)' % rc)
    os.unlink(path)
    blp = ops.write(ctx.path('x.blp'), final)
    full = ctx.path('full')
    os.symlink('/dev/full', full)
    rc = wait(child(lambda: bp.unpack_file_from_file(blp, full) and 0))
    ctx.check(rc == 50, 'unpacking to a full device did not raise (%d)' % rc)
    ctx.event('device_full', 2)
    ctx.event('evaluations', 2)

    def limited(n, g):
        def run():
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            g()
            return 0
        return run
    for n in [len(final) - 1, rng.randrange(len(final)), rng.randrange(len(final))]:
        rc = wait(child(limited(n, fn)))
        ctx.check(rc == 50, 'packing into a file that cannot grow beyond %d of %d bytes '
                  'did not raise (%d)' % (n, len(final), rc))
        ctx.event('size_limit')
        left(ctx, path, final, f, 'pack that ran out of space')
        os.unlink(path)
    n = rng.choice([len(data) - 1, rng.randrange(len(data))])
    rc = wait(child(limited(n, lambda: bp.unpack_file_from_file(blp, ctx.path('y')))))
    ctx.check(rc == 50, 'unpacking into a file that cannot grow did not raise (%d)' % rc)
    ctx.event('size_limit')
    ctx.nontrivial('full', len(data), s)


def case_clifull(ctx):
    rng = ctx.rng
    data, s, nchunks = big_job(ctx)
    d = ctx.dir
    ops.write(ctx.path('in'), data)
    for k in ('full.blp', 'full'):
        os.symlink('/dev/full', ctx.path(k))
    img = ctx.must('packing', ops.mk, data, s)
    ops.write(ctx.path('x.blp'), img)
    extra = rng.choice([[], ['-v'], ['-d']])
    for args in (['-f', 'c', 'in', 'full.blp'], ['-f', 'd', 'x.blp', 'full']):
        r = cli.run(rng, extra + args, d, 0.1)
        ctx.check(r.rc not in (0,), 'blpk %s on a full device exits 0' % args, out=repr(r))
        ctx.event('cli_errors')
        ctx.event('evaluations')
    # output of the program itself counts against no limit: it goes to a file too
    for args in (['c', '-z', '1M', 'in', 'out.blp'], ['d', 'x.blp', 'out2']):
        r = cli.forked(args, d)
        ctx.check(r.rc == 0, 'blpk failed', out=repr(r))
        size = os.path.getsize(ctx.path(args[-1]))
        os.unlink(ctx.path(args[-1]))
        lim = rng.choice([rng.randrange(size), size - 1])

        def limit():
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        r = cli.forked(args, d, before=limit)
        ctx.check(r.rc != 0, 'blpk %s with a limit of %d bytes exits 0' % (args, lim),
                  out=repr(r))
        ctx.event('cli_errors')
        ctx.event('evaluations')
    ctx.nontrivial('cli', len(data), s)
