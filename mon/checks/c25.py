"""C25: the drivers follow the source and sink protocol exactly."""
import builtins
import io
import os
import struct
import zlib

import blosc
import numpy as np

from bloscpack import exceptions, log
from bloscpack.abstract_io import (pack, unpack, PlainSource, CompressedSource, PlainSink,
                                   CompressedSink)
from bloscpack.args import calculate_nchunks, BloscArgs, BloscpackArgs, MetadataArgs
from bloscpack.checksums import CHECKSUMS_LOOKUP
from bloscpack.exceptions import ChecksumMismatch
from bloscpack.file_io import (PlainFPSource, PlainFPSink, CompressedFPSource,
                               CompressedFPSink)
from bloscpack.memory_io import (PlainMemorySource, PlainMemorySink,
                                 CompressedMemorySource, CompressedMemorySink)
from bloscpack.numpy_io import pack_ndarray, unpack_ndarray

from .. import gen, npgen, ops, ref

RULE = ('a case drives pack or unpack with recording sources and sinks (own ones, the '
        'library\'s, or a mixture) and has the recorded sequence of calls judged by a '
        'specification of the protocol; evaluations counts the recorded calls; distinct by '
        'sources, sinks, sizes, settings and injected failure')
ASSUMPTIONS = ['a sink returns the number of bytes it was given after decompression']
REQUIRE = {'packs': 3000, 'unpacks': 2500, 'own_source': 1500, 'own_sink': 2500,
           'library_source': 800, 'library_sink': 800, 'own_compress': 500,
           'source_failures': 300, 'sink_failures': 800, 'compress_failures': 150,
           'damaged_digests': 400, 'wrong_types': 60, 'arrays': 300, 'with_metadata': 1000,
           'metadata_args_left_out': 200, 'debug_level': 300, 'sink_digests': 3000,
           'many_chunks': 20, 'unknown_number': 200, 'small_sinks': 1200}


class Stop(Exception):
    pass


def _errors():
    out = [Stop, Stop, OSError, OSError, KeyboardInterrupt, SystemExit, zlib.error, struct.error]
    mods = [builtins, exceptions, blosc.blosc_extension]
    for m in mods:
        for k in sorted(vars(m)):
            c = getattr(m, k)
            if not isinstance(c, type) or not issubclass(c, BaseException) or \
                    issubclass(c, (Warning, StopIteration, StopAsyncIteration, GeneratorExit)) or \
                    'Group' in k:
                continue
            try:
                c('injected')
            except TypeError:
                continue
            out.append(c)
    return out


ERRORS = _errors()


class Log(object):
    def __init__(self):
        self.calls = []
        self.fail_at = None         # (name, how many calls of it before)
        self.error = None
        self.seen = {}

    def __call__(self, who, name, *args):
        self.calls.append((who, name) + args)
        k = self.seen.get((who, name), 0)
        self.seen[who, name] = k + 1
        if self.fail_at == (who, name, k):
            raise self.error


def own_source(trace, chunks, compress=None):
    class Source(PlainSource):
        def configure(self, chunk_size, last_chunk, nchunks):
            trace('source', 'configure', chunk_size, last_chunk, nchunks)
            PlainSource.configure(self, chunk_size, last_chunk, nchunks)

        def __iter__(self):
            trace('source', 'iter')
            for i, c in enumerate(chunks):
                trace('source', 'chunk', i)
                yield c
            trace('source', 'end')

    if compress is not None:
        Source.compress_func = property(lambda self: compress)
    return Source()


def own_sink(trace, mine):
    class Sink(CompressedSink):
        def configure(self, blosc_args, bloscpack_header):
            trace('sink', 'configure', blosc_args, bloscpack_header)
            CompressedSink.configure(self, blosc_args, bloscpack_header)

        def write_bloscpack_header(self):
            trace('sink', 'header')

        def write_metadata(self, metadata, metadata_args):
            trace('sink', 'metadata', metadata, metadata_args)

        def init_offsets(self):
            trace('sink', 'offsets')

        def put(self, i, compressed):
            trace('sink', 'put', i, bytes(compressed))
            mine.append(self.do_checksum(compressed))

        def finalize(self):
            trace('sink', 'finalize')
    return Sink()


def own_csource(trace, pairs, checksum, n, metadata=None):
    class Source(CompressedSource):
        checksum_impl = CHECKSUMS_LOOKUP[checksum]
        nchunks = n

        def __iter__(self):
            trace('source', 'iter')
            for i, p in enumerate(pairs):
                trace('source', 'chunk', i)
                yield p
            trace('source', 'end')
    s = Source()
    s.metadata = metadata
    return s


def own_psink(trace):
    class Sink(PlainSink):
        def put(self, compressed):
            trace('sink', 'put', bytes(compressed))
            return len(blosc.decompress(compressed))
    return Sink()


def calls(t, who, name):
    return [c[2:] for c in t.calls if c[0] == who and c[1] == name]


def order(t):
    return [c[1] for c in t.calls if c[0] == 'sink']


def quiet(ctx, fn):
    """Run at some log level; what is printed does not matter here."""
    rng = ctx.rng
    if rng.random() < 0.75:
        return fn()
    level = log.LEVEL
    import contextlib
    log.LEVEL = rng.choice([log.VERBOSE, log.DEBUG, log.DEBUG])
    if log.LEVEL == log.DEBUG:
        ctx.event('debug_level')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    finally:
        log.LEVEL = level


def judge_pack(ctx, t, chunks, put, s, geometry, done):
    """The specification of pack, for a complete or an interrupted run."""
    n, c, last = geometry
    has_meta = s['meta'] is not None
    ctx.event('evaluations', len(t.calls))
    conf = calls(t, 'source', 'configure')
    if any(x[0] == 'source' for x in t.calls):
        ctx.check(conf == [(c, last, n)], 'source configured with %s, not once with %s' %
                  (conf, (c, last, n)))
        names = [x[1] for x in t.calls if x[0] == 'source']
        ctx.check(names[0] == 'configure', 'source used before it was configured: %s' % names[:4])
        ctx.check(names.count('iter') <= 1, 'source read more than once')
        got = [x[0] for x in calls(t, 'source', 'chunk')]
        ctx.check(got == list(range(len(got))), 'chunks taken in another order')
    names = order(t)
    if names:
        expect = ['configure', 'header'] + ['metadata'] * has_meta + ['offsets'] + \
            ['put'] * n + ['finalize']
        ctx.check(names == expect[:len(names)], 'sink calls out of order: %s' % brief(names),
                  expected=brief(expect))
        if done:
            ctx.check(names == expect, 'sink calls incomplete: %s' % brief(names),
                      expected=brief(expect))
        args, head = calls(t, 'sink', 'configure')[0]
        bl = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')
        bl.update(s['blosc'] or {})
        ctx.check(dict(args) == bl, 'sink configured with other Blosc settings: %s' %
                  dict(args), expected=bl)
        bk = dict(offsets=True, checksum='adler32', max_app=('default', 0))
        bk.update(s['bpack'] or {})
        want = dict(format_version=3, offsets=bool(bk['offsets']), metadata=has_meta,
                    checksum=bk['checksum'], typesize=bl['typesize'], chunk_size=c,
                    last_chunk=last, nchunks=n,
                    max_app_chunks=gen.max_app_expected(bk['max_app'], n, bk['offsets']))
        for k, v in want.items():
            ctx.check(getattr(head, k) == v, 'header given to the sink says %s=%r, not %r' %
                      (k, getattr(head, k), v))
        for m, ma in calls(t, 'sink', 'metadata'):
            ctx.check(gen.same_json(m, s['meta'], True), 'metadata given to the sink differ',
                      got=m, want=s['meta'])
            w = dict(meta_codec='zlib', meta_level=6, meta_checksum='adler32')
            w.update((k, v) for k, v in (s['ma'] or {}).items() if k in w)
            ctx.check(ma is not None and dict((k, ma[k]) for k in w) == w,
                      'metadata settings given to the sink differ: %r' % (ma,), expected=w)
        puts = calls(t, 'sink', 'put')
        ctx.check([p[0] for p in puts] == list(range(len(puts))),
                  'chunk numbers %s' % brief([p[0] for p in puts]))
        for i, raw in puts:
            ctx.check(raw == put(i), 'chunk %d given to the sink is not the compressed '
                      'chunk' % i)
    if done and any(x[0] == 'source' for x in t.calls):
        ctx.check(len(calls(t, 'source', 'chunk')) == len(chunks), 'not all chunks taken')


def brief(x):
    out = []
    for k in x:
        if out and out[-1][0] == k:
            out[-1][1] += 1
        else:
            out.append([k, 1])
    return ' '.join('%s*%d' % (k, n) if n > 1 else str(k) for k, n in out[:40])


def geometry(ctx):
    rng = ctx.rng
    chunk = rng.choice([1, 7, 8, 16, 100, 128, 1000])
    n = rng.choice([1, 1, 2, 3, 5, 9, rng.randrange(1, 20)])
    if rng.random() < 0.02:
        n = rng.randrange(100, 700)
        ctx.event('many_chunks')
    size = max(0, n * chunk - rng.choice([0, 0, 1, chunk // 2, chunk - 1]))
    if rng.random() < 0.05:
        size = 0
    return size, chunk


def do_pack(ctx, inject):
    rng = ctx.rng
    size, chunk = geometry(ctx)
    data = gen.data(rng, size)
    s = ops.random_spec(rng, chunk)
    if s['ma'] and s['ma']['max_meta'][0] == 'int':
        s['ma']['max_meta'] = ('add', 10)
    n, c, last, chunks = ops._chunks(data, s)
    t, digests = Log(), []
    compress = None
    own = rng.random() < 0.7 or inject in ('compress', 'source')
    if own and (rng.random() < 0.4 or inject == 'compress'):
        ctx.event('own_compress')
        seen = []
        # the items of the source mean something to its own function only
        style = rng.choice(['pair', 'bytes', 'number', 'memoryview'])
        items = [dict(pair=(i, ch), bytes=ch, number=b'%d' % i,
                      memoryview=memoryview(ch))[style] for i, ch in enumerate(chunks)]

        def compress(item, args):
            i = len(seen)
            trace_c('compress', 'call', i, dict(args))
            seen.append(i)
            ctx.check(item is items[i] or item == items[i], 'the function of the source was '
                      'given something else for chunk %d' % i)
            return blosc.compress(chunks[i], **args)
        trace_c = t
    else:
        items = chunks
    src = own_source(t, items, compress) if own else rng.choice(
        [lambda: PlainFPSource(io.BytesIO(data)), lambda: PlainMemorySource(chunks)])()
    ctx.event('own_source' if own else 'library_source')
    lib = inject is None and own and rng.random() < 0.3
    if lib:
        out = io.BytesIO()
        sink = rng.choice([CompressedFPSink(out), CompressedMemorySink()])
        ctx.event('library_sink')
    else:
        sink = own_sink(t, digests)
        ctx.event('own_sink')
    ctx.note = dict(spec=s, size=size, inject=inject, own_source=own,
                    sink=type(sink).__name__)
    if inject:
        t.error = rng.choice(ERRORS)('injected')
        if inject == 'source':
            where = rng.choice([('configure', 0), ('iter', 0), ('end', 0)] +
                               [('chunk', rng.randrange(n))] * 4)
            t.fail_at = ('source',) + where
            ctx.event('source_failures')
        elif inject == 'sink':
            where = rng.choice([('configure', 0), ('header', 0), ('offsets', 0), ('metadata', 0),
                                ('finalize', 0)] + [('put', rng.randrange(n)), ('put', n - 1)] * 2)
            if where[0] == 'metadata' and s['meta'] is None:
                where = ('header', 0)
            t.fail_at = ('sink',) + where
            ctx.event('sink_failures')
        else:
            t.fail_at = ('compress', 'call', rng.randrange(n))
            ctx.event('compress_failures')
        ctx.note['where'] = t.fail_at
    bl = ops.A(s['blosc'])

    def put(i):
        return ops.compress_direct(chunks[i], s['blosc'])

    def go():
        pack(src, sink, n, c, last, **ops.left_out(dict(
            metadata=s['meta'], blosc_args=bl, bloscpack_args=ops.B(s['bpack']),
            metadata_args=ops.M(s['ma'])), s))
    ctx.event('packs')
    if s['meta'] is not None:
        ctx.event('with_metadata')
        if s['ma'] is None:
            ctx.event('metadata_args_left_out')
    if t.fail_at is None:
        ctx.must('packing', quiet, ctx, go)
        judge_pack(ctx, t, chunks, put, s, (n, c, last), not lib)
        if compress is not None:
            ctx.check(seen == list(range(n)), 'the compression function of the source was '
                      'called for %s' % seen)
        if lib:
            ctx.check(len(calls(t, 'source', 'chunk')) == n, 'not all chunks taken')
            sk = sink
            if isinstance(sink, CompressedFPSink):
                f = ref.conform(out.getvalue())
                ctx.check(f.data == data, 'content written by the library sink differs')
            else:
                ctx.check(sk.chunks == [put(i) for i in range(n)], 'content of the library '
                          'sink differs')
        else:
            ck = (s['bpack'] or {}).get('checksum', 'adler32')
            ctx.check(len(digests) == n, 'digests')
            for d, i in zip(digests, range(n)):
                w = ref.digest(ck, put(i))
                ctx.event('sink_digests')
                ctx.check(d == w or (not d and not w), 'the sink\'s do_checksum gave a wrong '
                          '%s digest for chunk %d' % (ck, i))
    else:
        expect_error(ctx, go, t)
        judge_pack(ctx, t, chunks, put, s, (n, c, last), False)
    ctx.nontrivial(s, size, inject, t.fail_at, own, type(sink).__name__)


def expect_error(ctx, go, t):
    try:
        quiet(ctx, go)
    except BaseException as e:
        ok = e is t.error or type(e) is type(t.error) or t.error in (e.__cause__,
                                                                     e.__context__)
        if not ok:
            ctx.fail('%s(injected) at %s came out as %s: %s' % (
                type(t.error).__name__, t.fail_at, type(e).__name__, e))
        last = t.calls[-1]
        ctx.check(last[:2] == t.fail_at[:2], 'after %s failed, %s was called' %
                  (t.fail_at[:2], last[:2]))
    else:
        ctx.fail('%s at %s was swallowed' % (type(t.error).__name__, t.fail_at))


def do_unpack(ctx, inject):
    rng = ctx.rng
    size, chunk = geometry(ctx)
    data = gen.data(rng, size)
    ck = rng.choice(gen.CHECKSUMS)
    if inject == 'digest':
        ck = rng.choice(gen.CHECKSUMS[1:])
    s = ops.spec(chunk, gen.blosc_args(rng), dict(checksum=ck, offsets=rng.random() < 0.7),
                 rng.choice([None, {'m': 1}]))
    n, c, last, chunks = ops._chunks(data, s)
    comp = [ops.compress_direct(x, gen.blosc_args(rng)) for x in chunks]
    none = rng.choice([None, b'', ''])
    pairs = [(x, ref.digest(ck, x) if ck != 'None' else none) for x in comp]
    bad = None
    if inject == 'digest':
        bad = rng.choice([0, n - 1, rng.randrange(n)])
        x, d = pairs[bad]
        d = bytearray(d)
        d[rng.randrange(len(d))] ^= rng.randrange(1, 256)
        pairs[bad] = (x, rng.choice([bytes(d), bytes(d), b'', None, bytes(len(d)), d[:-1]]))
        if pairs[bad][1] == ref.digest(ck, x):
            return
        ctx.event('damaged_digests')
    t = Log()
    own = rng.random() < 0.7 or inject in ('source', 'digest')
    if own:
        num = n if rng.random() < 0.7 else None
        if num is None:
            ctx.event('unknown_number')
        src = own_csource(t, pairs, ck, num)
        ctx.event('own_source')
    else:
        ctx.event('library_source')
        img = ctx.must('packing', ops.mk, data, s)
        comp = [x['raw'] for x in ref.parse(img).chunks]
        if rng.random() < 0.6:
            src = CompressedFPSource(io.BytesIO(img))
        else:
            src = CompressedMemorySource(ops.p_mem_mem(ctx.dir, data, s).sink)
            comp = src.chunks
    lib = inject in (None, 'digest') and own and rng.random() < 0.4
    out = io.BytesIO()
    if lib:
        sink = rng.choice([lambda: PlainFPSink(out), lambda: PlainMemorySink(),
                           lambda: PlainMemorySink(n), lambda: PlainFPSink(out, n)])()
        ctx.event('library_sink')
    else:
        sink = own_psink(t)
        ctx.event('own_sink')
    ctx.note = dict(spec=s, size=size, inject=inject, own_source=own, bad=bad,
                    sink=type(sink).__name__)
    stop = n
    if inject in ('source', 'sink'):
        t.error = rng.choice(ERRORS)('injected')
        if inject == 'source':
            t.fail_at = ('source',) + rng.choice(
                [('iter', 0), ('end', 0)] + [('chunk', rng.randrange(n))] * 4)
            ctx.event('source_failures')
        else:
            t.fail_at = ('sink', 'put', rng.choice([0, n - 1, rng.randrange(n)]))
            ctx.event('sink_failures')
        ctx.note['where'] = t.fail_at
    ctx.event('unpacks')

    def go():
        unpack(src, sink)
    if t.fail_at is not None:
        expect_error(ctx, go, t)
    elif bad is not None:
        stop = bad
        r = ctx.outcome(quiet, ctx, go)
        ctx.check(r[0] == 'exc', 'a chunk with a wrong digest was accepted')
        ctx.check(r[1] == ChecksumMismatch.__name__, 'a wrong digest is reported as %s: %s' %
                  r[1:])
    else:
        ctx.must('unpacking', quiet, ctx, go)
    ctx.event('evaluations', len(t.calls))
    puts = [p[0] for p in calls(t, 'sink', 'put')]
    ctx.check(puts == comp[:len(puts)], 'chunks given to the sink differ or are out of order')
    if t.fail_at is None and not lib:
        ctx.check(len(puts) == stop, '%d of %d chunks were given to the sink%s' %
                  (len(puts), n, '' if bad is None else ', chunk %d is damaged' % bad))
    if own:
        took = [x[0] for x in calls(t, 'source', 'chunk')]
        ctx.check(took == list(range(len(took))) and
                  [x[1] for x in t.calls].count('iter') <= 1, 'source read in another way')
        if t.fail_at is None and bad is None:
            ctx.check(len(took) == n, 'not all chunks taken')
    if lib:
        got = out.getvalue() if isinstance(sink, PlainFPSink) else b''.join(
            x for x in sink.chunks if x is not None)
        want = b''.join(chunks[:stop])
        ctx.check(got == want, 'the library sink received %d bytes, not %d' %
                  (len(got), len(want)))
    if bad is None and inject is None and n > 1 and rng.random() < 0.3:
        # more chunks than a sink was made for: refused or kept, not lost
        k = rng.randrange(n)
        few = PlainMemorySink(k)
        r = ctx.outcome(quiet, ctx, lambda: unpack(own_csource(Log(), pairs, ck, n), few))
        ctx.event('small_sinks')
        ctx.check(r[0] == 'exc' or list(few.chunks) == list(chunks),
                  'a sink for %d chunks was given %d, and lost some silently' % (k, n))
    ctx.nontrivial(s, size, inject, t.fail_at, bad, own, type(sink).__name__)


def do_array(ctx):
    """Arrays through a sink and a source of one's own."""
    rng = ctx.rng
    a, desc, keep = npgen.array(rng)
    if a.dtype.names is not None:
        a = np.arange(rng.randrange(1, 200), dtype=rng.choice(['i1', '<i4', '>f8', 'c16']))
    t, digests = Log(), []
    item = a.itemsize
    chunk = item * max(1, rng.randrange(1, max(2, a.size)), a.size // 100 + 1)
    bl, bk = gen.blosc_args(rng), gen.bloscpack_args(rng)
    sink = own_sink(t, digests)
    ctx.note = dict(desc, chunk=chunk, blosc=bl, bpack=bk)
    ctx.must('packing an array', quiet, ctx, lambda: pack_ndarray(
        a, sink, chunk_size=chunk, blosc_args=BloscArgs(**bl),
        bloscpack_args=ops.B(bk)))
    ctx.event('arrays')
    ctx.event('packs')
    n, c, last = calculate_nchunks(a.nbytes, chunk)
    names = order(t)
    expect = ['configure', 'header', 'metadata', 'offsets'] + ['put'] * n + ['finalize']
    ctx.event('evaluations', len(names))
    ctx.check(names == expect, 'sink calls for an array: %s' % brief(names))
    args, head = calls(t, 'sink', 'configure')[0]
    ctx.check(dict(args) == dict(bl, typesize=item), 'Blosc settings given to the sink: %s' %
              dict(args))
    ctx.check((head.chunk_size, head.last_chunk, head.nchunks, head.typesize,
               head.metadata, head.checksum) == (c, last, n, item, True, bk['checksum']),
              'header given to the sink: %r' % (head,))
    puts = calls(t, 'sink', 'put')
    flat = a.tobytes('F' if np.isfortran(a) else 'C')
    got = b''.join(blosc.decompress(p[1]) for p in puts)
    ctx.check([p[0] for p in puts] == list(range(n)) and got == flat,
              'chunks given to the sink are not the array')
    meta = calls(t, 'sink', 'metadata')[0][0]
    # and back through a source of one's own; the metadata as JSON would give them
    import json
    meta = json.loads(json.dumps(meta))
    t2 = Log()
    ck = bk['checksum']
    src = own_csource(t2, [(p[1], ref.digest(ck, p[1]) if ck != 'None' else None)
                           for p in puts], ck, rng.choice([n, None]), meta)
    b = ctx.must('restoring an array', quiet, ctx, lambda: unpack_ndarray(src))
    ctx.event('unpacks')
    ctx.check(npgen.dtype_diff(a.dtype, b.dtype) is None and a.shape == b.shape and
              a.tobytes() == b.tobytes(), 'array differs after own sink and own source')
    ctx.nontrivial(desc, chunk, bl, bk)


def wrong_types(ctx):
    """What is no source or sink is refused before anything is called."""
    rng = ctx.rng
    t, digests = Log(), []
    data = b'some data' * 10

    class Duck(object):
        """Has every method, but is neither a source nor a sink."""
        chunk_size, checksum_impl, nchunks = 10, CHECKSUMS_LOOKUP['None'], 1

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return lambda *a, **k: t('duck', name)

        def __iter__(self):
            t('duck', 'iter')
            return iter([])
    good = [own_source(t, [data]), own_sink(t, digests)]
    cgood = [own_csource(t, [(ops.compress_direct(data, None), None)], 'None', 1),
             own_psink(t)]
    junk = [Duck(), None, io.BytesIO(data), data, [data], 5, 'name'] + good + cgood
    for pos in (0, 1):
        for j in junk:
            for fn, args, ok in ((pack, list(good), good), (unpack, list(cgood), cgood)):
                if j is ok[pos]:
                    continue
                args[pos] = j
                ctx.event('wrong_types')
                ctx.event('evaluations')
                ctx.note = dict(position=pos, given=type(j).__name__, fn=fn.__name__)
                more = (1, len(data), len(data)) if fn is pack else ()
                ctx.must_refuse('%s with a %s as %s' % (
                    fn.__name__, type(j).__name__, ['source', 'sink'][pos]), fn, *(
                        tuple(args) + more))
                ctx.check(not t.calls, 'with wrong arguments, %s were called' % t.calls[:3])
    ctx.nontrivial('types')


def plan(tier, seed):
    q = {'quick': 5, 'thorough': 100}[tier]
    out = [('types', n) for n in range(3)]
    out += [('pack', n) for n in range(2500 * q)]
    out += [('packfail', n) for n in range(2000 * q)]
    out += [('unpack', n) for n in range(2500 * q)]
    out += [('unpackfail', n) for n in range(2500 * q)]
    out += [('array', n) for n in range(700 * q)]
    return out


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'types':
        wrong_types(ctx)
    elif kind == 'pack':
        do_pack(ctx, None)
    elif kind == 'packfail':
        do_pack(ctx, rng.choice(['source', 'sink', 'sink', 'compress']))
    elif kind == 'unpack':
        do_unpack(ctx, None)
    elif kind == 'unpackfail':
        do_unpack(ctx, rng.choice(['source', 'sink', 'digest']))
    else:
        do_array(ctx)
    ctx.sample(dict(ctx.note, case_kind=kind))
