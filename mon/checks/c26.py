"""C26: a setting that cannot be honoured is refused, never ignored or replaced."""
import decimal
import io
import os

import blosc
import numpy as np

import bloscpack as bp
from bloscpack.abstract_io import pack
from bloscpack.append import append_fp, _rewrite_metadata_fp
from bloscpack.args import BloscArgs, BloscpackArgs, MetadataArgs, calculate_nchunks
from bloscpack.file_io import PlainFPSource, PlainFPSink, CompressedFPSource, CompressedFPSink
from bloscpack.memory_io import PlainMemorySource, CompressedMemorySink
from bloscpack.numpy_io import pack_ndarray

from .. import gen, ops, ref

RULE = ('a case gives one invalid value for one setting, everything else being valid, to the '
        'packing, array or append entry points (each call is an evaluation) and requires an '
        'exception; where the operation has an output, what is left there must not be '
        'readable; distinct by setting, value, entry point and the valid settings')
ASSUMPTIONS = ['values a lenient conversion would turn into a valid one without loss (8.0, '
               'True, "8") may be taken or refused',
               'settings that have no effect (reservation without offsets, metadata settings '
               'without metadata, level without codec) need not be looked at']
REQUIRE = {'refusals': 20000, 'blosc': 3000, 'bloscpack': 3000, 'metadata_settings': 3000,
           'chunk_size': 1500, 'metadata_value': 1500, 'data': 300, 'array': 1000,
           'file_outputs': 1500, 'leftovers_refused': 100, 'append': 500, 'callable_raises': 200,
           'accepted_before_and_after': 2000}


class Odd(object):
    """Something no setting can be."""

    def __repr__(self):
        return 'Odd()'


class Raises(Exception):
    pass


def raising(n):
    raise Raises('callable')


def big(rng):
    return rng.choice([256, 257, 300, 512, 1000, 2 ** 15, 2 ** 16 + 8, 2 ** 31, 2 ** 32 + 8,
                       2 ** 63, 2 ** 64 + 8, rng.randrange(256, 10 ** 6)])


def neg(rng):
    return rng.choice([-1, -2, -8, -128, -255, -256, -2 ** 31, -2 ** 32, -2 ** 63,
                       -rng.randrange(1, 10 ** 6)])


NOTHING = [lambda r: Odd(), lambda r: [], lambda r: {}, lambda r: None, lambda r: 'x',
           lambda r: 2.5, lambda r: 1j]


def nothing(rng, but=()):
    v = rng.choice(NOTHING)(rng)
    return nothing(rng, but) if any(v == b for b in but) else v


def bad_blosc(rng):
    k = rng.randrange(4)
    if k == 0:
        return 'typesize', rng.choice([0, neg(rng), big(rng), big(rng), nothing(rng)])
    if k == 1:
        return 'clevel', rng.choice([neg(rng), 10, 11, 99, rng.randrange(10, 300), big(rng),
                                     nothing(rng)])
    if k == 2:
        return 'shuffle', rng.choice([neg(rng), 3, 4, 7, 255, rng.randrange(3, 300),
                                      nothing(rng)])
    return 'cname', rng.choice(['', 'LZ4', 'Zlib', 'lz5', 'lz4 ', ' zstd', 'blosclz\0', 'lz',
                                'blosc', 'snappy?', 'zlib,lz4', 'none', 'None', 0, 3,
                                nothing(rng)])


def checksum_name(rng):
    n = rng.choice(gen.CHECKSUMS[1:])
    return rng.choice(['', n.upper(), n + ' ', ' ' + n, n[:-1], n + '\0', n.encode(), 'md4',
                       'crc', 'sha', 'sha3', 'none', 'NONE', 'sha3_256', 'fletcher32', 9, 255,
                       -1, Odd(), 2.5, ()])


def bad_bloscpack(rng):
    if rng.random() < 0.5:
        return 'checksum', checksum_name(rng)
    return 'max_app_chunks', rng.choice([
        neg(rng), 2 ** 63, 2 ** 64, 2 ** 70, None, 'x', '10', 2.5, Odd(), [], 1j,
        lambda n: neg(rng), lambda n: -1, lambda n: 2.5, lambda n: None, lambda n: 'x',
        lambda n: n / 3.0, lambda n: [n], raising, decimal.Decimal('1.5')])


def bad_metadata_args(rng):
    k = rng.randrange(5)
    if k == 0:
        return 'magic_format', rng.choice(['XML', b'json', b'', b'JSON2', b'PICKLE', b'JSONJSONJSON',
                                           b'YAML', Odd(), None, 5, b'JSON\0\0\0\1', 'json'])
    if k == 1:
        return 'meta_checksum', rng.choice([checksum_name(rng), b'adler32'])
    if k == 2:
        return 'meta_codec', rng.choice(['', 'ZLIB', 'gzip', 'bz2', 'none', 'zlib ', b'zlib', 1,
                                         2, Odd(), 'blosc', 'lz4', 'lzma', 'NONE'])
    if k == 3:
        return 'meta_level', rng.choice([10, 11, 100, neg(rng), 255, 256 + 6, 2 ** 32 + 6,
                                         nothing(rng)])
    return 'max_meta_size', rng.choice([
        neg(rng), 0, 1, 2 ** 32, 2 ** 33, 2 ** 64, None, 'x', Odd(), [], 1j,
        lambda n: -1, lambda n: 0, lambda n: n // 500, lambda n: None, lambda n: 'x',
        lambda n: 2 ** 32, lambda n: n + 0.5, raising, lambda n: [n]])


def bad_chunk(rng):
    return rng.choice([0, neg(rng), neg(rng), ref.MAXBUF + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32,
                       2 ** 32 + 8, 2 ** 64, 'x', '', 'K', 'M', '-1K', '-1M', '0K', '0B', '1X', '10k',
                       '5Q', '1KB', 'K1', '3G', '2T', '1e3', 2.5, Odd(), None, [], 1j, 'nanK',
                       '1M1', '--1M', 'infK', 'infM'])


def bad_json(rng):
    def deep(v):
        return rng.choice([lambda: v, lambda: [v], lambda: {'a': v}, lambda: {'a': [1, {'b': v}]},
                           lambda: [1, 'x', v, 2.5]])()
    return rng.choice([
        lambda: deep(Odd()), lambda: deep(b'bytes'), lambda: deep(bytearray(b'x')),
        lambda: deep({1, 2}), lambda: deep(frozenset()), lambda: deep(1j),
        lambda: deep(np.int64(3)), lambda: deep(np.arange(3)), lambda: deep(object),
        lambda: deep(len), lambda: deep({(1, 2): 3}), lambda: deep({b'k': 1}),
        lambda: deep(decimal.Decimal('1.5')), lambda: deep(range(3)),
        lambda: deep(iter([1])), lambda: deep(memoryview(b'x')), lambda: deep(...),
        lambda: deep({Odd(): 1})])()


LONG = {'long': 'abc' * 400}        # compresses well, longer than a small reservation


def settings(rng, blosc_=None, bpack=None, ma=None):
    """Valid arguments with at most one invalid value among them."""
    bl, bk, m = gen.blosc_args(rng), dict(
        offsets=True, checksum=rng.choice(gen.CHECKSUMS), max_app_chunks=rng.choice([0, 2, 30])),\
        dict(magic_format=b'JSON', meta_checksum=rng.choice(gen.CHECKSUMS),
             meta_codec='zlib', meta_level=rng.randrange(1, 10), max_meta_size=5000)
    given = []
    for d, bad in ((bl, blosc_), (bk, bpack), (m, ma)):
        if bad:
            if rng.random() < 0.4:
                d.clear()
            d[bad[0]] = bad[1]
        given.append(bool(bad) or rng.random() < 0.5)
    k = {}
    if given[0]:
        k['blosc_args'] = BloscArgs(**bl)
    if given[1]:
        k['bloscpack_args'] = BloscpackArgs(**bk)
    if given[2]:
        k['metadata_args'] = MetadataArgs(**m)
    return k


# entry points: (ctx, data, kwargs incl. chunk_size) -> output path or bytes or None

def e_file_file(ctx, data, k, name='pack_file_to_file'):
    i = ops.write(ctx.path('in'), data)
    getattr(bp, name)(i, ctx.path('out'), **k)


def e_file_file_old(ctx, data, k):
    e_file_file(ctx, data, k, 'pack_file')


def e_bytes_file(ctx, data, k):
    bp.pack_bytes_to_file(data, ctx.path('out'), **k)


def e_bytes_file_old(ctx, data, k):
    bp.pack_bytes_file(data, ctx.path('out'), **k)


def e_bytes_bytes(ctx, data, k):
    return bp.pack_bytes_to_bytes(data, **k)


def low(k, size):
    k = dict(k)
    return k, calculate_nchunks(size, k.pop('chunk_size', '1M'))


def e_fp_fp(ctx, data, k):
    k, g = low(k, len(data))
    ctx.out = io.BytesIO()
    pack(PlainFPSource(io.BytesIO(data)), CompressedFPSink(ctx.out), *g, **k)


def e_fp_mem(ctx, data, k):
    k, g = low(k, len(data))
    # metadata settings are not looked at until they are written
    pack(PlainFPSource(io.BytesIO(data)), CompressedMemorySink(), *g, **k)


def e_mem_fp(ctx, data, k):
    k, (n, c, last) = low(k, len(data))
    ch = [data[i * c:(i + 1) * c] for i in range(n - 1)] + [data[(n - 1) * c:]]
    ctx.out = io.BytesIO()
    pack(PlainMemorySource(ch), CompressedFPSink(ctx.out), n, c, last, **k)


FILES = [e_file_file, e_bytes_file, e_file_file_old, e_bytes_file_old]
STREAMS = [e_bytes_bytes, e_bytes_bytes, e_fp_fp, e_mem_fp]


def e_array_bytes(ctx, a, k):
    return bp.pack_ndarray_to_bytes(a, **k)


def e_array_file(ctx, a, k):
    bp.pack_ndarray_to_file(a, ctx.path('out'), **k)


def e_array_fp(ctx, a, k):
    ctx.out = io.BytesIO()
    pack_ndarray(a, CompressedFPSink(ctx.out), **k)


def e_array_old(ctx, a, k):
    return bp.pack_ndarray_str(a, **k)


ARRAYS = [e_array_bytes, e_array_fp, e_array_bytes, e_array_old, e_array_file]


def refused(ctx, what, entry, data, k):
    out = ctx.path('out') if entry in FILES or entry is e_array_file else None
    ctx.out = None
    if out and os.path.exists(out):
        os.unlink(out)
    ctx.event('evaluations')
    ctx.note = dict(what=what, entry=entry.__name__, size=len(data),
                    arguments=dict((n, repr(v)) for n, v in k.items() if n != 'metadata'))
    try:
        r = entry(ctx, data, k)
    except Raises:
        ctx.event('callable_raises')
        ctx.event('refusals')
    except Exception as e:
        ctx.event('refusals')
        ctx.event('refused:' + type(e).__name__)
    except BaseException as e:
        if type(e).__name__ != 'ChunkingException':
            raise
        ctx.event('refusals')
    else:
        ctx.fail('%s was accepted by %s' % (what, entry.__name__), result=repr(r)[:100])
    if out:
        ctx.event('file_outputs')
    left = ops.read(out) if out and os.path.exists(out) else \
        ctx.out.getvalue() if ctx.out is not None else None
    if left:
        ctx.event('leftovers_refused')
        for u in (ops.u_bytes_bytes, ops.nu_bytes):
            r = ctx.outcome(u, ctx.dir, ops.Img(left))
            ctx.check(r[0] == 'exc', 'what a refused operation (%s) left behind unpacks' % what,
                      got=repr(r)[:100])


def show(v):
    return 'a callable' if callable(v) else repr(v)


def plan(tier, seed):
    q = {'quick': 3, 'thorough': 80}[tier]
    out = []
    for kind, n in (('blosc', 2500), ('bloscpack', 2500), ('metaargs', 2500), ('chunk', 1500),
                    ('json', 1500), ('data', 200), ('array', 1200), ('append', 800)):
        out += [(kind, i) for i in range(n * q)]
    return out


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'array':
        return array(ctx)
    if kind == 'append':
        return appended(ctx)
    size = rng.choice([1, 5, 100, 300, 3000])
    data = gen.data(rng, size)
    chunk = rng.choice([7, 100, 1000, '1K', '1M'])
    meta = None
    if kind == 'blosc':
        name, v = bad_blosc(rng)
        k = settings(rng, blosc_=(name, v))
        ctx.event('blosc')
        meta = rng.choice([None, {'m': 1}])
    elif kind == 'bloscpack':
        name, v = bad_bloscpack(rng)
        k = settings(rng, bpack=(name, v))
        ctx.event('bloscpack')
        meta = rng.choice([None, {'m': 1}])
    elif kind == 'metaargs':
        name, v = bad_metadata_args(rng)
        k = settings(rng, ma=(name, v))
        ctx.event('metadata_settings')
        meta = LONG
    elif kind == 'chunk':
        name, v = 'chunk_size', bad_chunk(rng)
        k = settings(rng)
        chunk = v
        ctx.event('chunk_size')
    elif kind == 'json':
        name, v = 'metadata', bad_json(rng)
        k = settings(rng)
        meta = v
        ctx.event('metadata_value')
    else:
        name = 'data'
        v = rng.choice([None, 5, 'text' * size, [1] * size, Odd(), 2.5, {'a': 1}, [b'x'] * 3,
                        ['abc']])
        data = v
        k = settings(rng)
        ctx.event('data')
    k['chunk_size'] = chunk
    if meta is not None:
        k['metadata'] = meta
    what = '%s %s' % (name, show(v))
    if kind == 'data':
        entries = [e_bytes_bytes, e_bytes_file]
        for e in entries:
            ctx.event('evaluations')
            ctx.note = dict(what=what, entry=e.__name__)
            ctx.must_refuse(what + ' as data', e, ctx, data, k)
    else:
        entries = rng.sample(STREAMS, 2)
        if kind in ('blosc', 'bloscpack', 'chunk'):
            entries.append(e_fp_mem)
        if rng.random() < 0.5:
            entries.append(rng.choice(FILES))
        for e in entries:
            refused(ctx, what, e, data, k)
        if rng.random() < 0.3:
            still_works(ctx)
    ctx.nontrivial(what, size, chunk if kind != 'chunk' else 0, repr(sorted(
        (n, repr(x)) for n, x in k.items() if 'args' in n)), [e.__name__ for e in entries])
    ctx.sample(dict(ctx.note, case_kind=kind))


def still_works(ctx):
    """The refusal says something about the value, not about the process."""
    rng = ctx.rng
    data = gen.data(rng, 100)
    s = ops.spec(30, gen.blosc_args(rng), gen.bloscpack_args(rng), LONG, gen.metadata_args(rng))
    im = ctx.must('packing with valid settings after a refusal', ops.p_bytes_bytes, ctx.dir,
                  data, s)
    f = ref.conform(im.img)
    ctx.check(f.data == data and f.meta['value'] == LONG, 'content after a refusal')
    ctx.event('accepted_before_and_after')


def array(ctx):
    rng = ctx.rng
    ctx.event('array')
    a = np.arange(rng.randrange(4, 100), dtype=rng.choice(['<i4', '>f8', 'i2', 'c16']))
    k = rng.randrange(5)
    if k == 0:
        name, v = bad_blosc(rng)
        if name == 'typesize':      # replaced by the item size, as documented
            name, v = 'clevel', rng.choice([neg(rng), 10, big(rng)])
        kw = settings(rng, blosc_=(name, v))
    elif k == 1:
        name, v = bad_bloscpack(rng)
        kw = settings(rng, bpack=(name, v))
    elif k == 2:
        name, v = bad_metadata_args(rng)
        if name in ('meta_level', 'max_meta_size'):
            # the description of the array is short and may not be compressed
            name, v = 'max_meta_size', rng.choice([neg(rng), 0, 1, 30, 2 ** 32, 'x', None,
                                                   lambda n: -1, lambda n: n // 10, raising])
        kw = settings(rng, ma=(name, v))
    elif k == 3:
        name = 'chunk_size'
        # not a multiple of the item size, and not large enough for the array
        v = rng.choice([a.itemsize + 1, a.itemsize * 3 - 1, 1, a.itemsize - 1, a.nbytes - 1])
        if rng.random() < 0.4:
            v = bad_chunk(rng)
        kw = settings(rng)
        kw['chunk_size'] = v
    else:
        name = 'array'
        kw = settings(rng)
        a, v = rng.choice([
            lambda: (np.array([None, 'x', 5], object), 'of objects'),
            lambda: (np.zeros(3, [('a', 'i4'), ('b', object)]), 'with an object field'),
            lambda: (np.zeros(3, 'S256'), 'of 256-byte items'),
            lambda: (np.zeros(3, 'S%d' % rng.choice([257, 264, 300, 512, 520])), 'of large items'),
            lambda: (np.zeros(2, [('a', 'V200'), ('b', 'V%d' % rng.randrange(56, 300))]),
                     'of large structures'),
            lambda: (np.zeros(2, 'U%d' % rng.randrange(64, 100)), 'of long strings'),
            lambda: (np.zeros((2, 2), ('i8', (40,))).view('V320'), 'of large items')])()
    for e in rng.sample(ARRAYS[:4], 2) + ([e_array_file] if rng.random() < 0.3 else []):
        refused(ctx, 'array: %s %s' % (name, show(v)), e, a, kw)
    ctx.nontrivial('array', name, show(v), str(a.dtype), a.size, repr(sorted(
        (n, repr(x)) for n, x in kw.items())))
    ctx.sample(dict(ctx.note, case_kind='array'))


def appended(ctx):
    """The same for the settings of appends and metadata updates."""
    rng = ctx.rng
    ctx.event('append')
    img = ctx.must('packing', ops.mk, gen.data(rng, 250), ops.spec(
        100, None, dict(checksum=rng.choice(gen.CHECKSUMS), max_app=('int', 20)), LONG,
        dict(max_meta=('int', 5000), meta_checksum=rng.choice(['adler32', 'crc32', 'sha1']))))
    fp = io.BytesIO(img)
    if rng.random() < 0.6:
        name, v = bad_blosc(rng)
        if v is None:
            v = -1 if name != 'cname' else 'x'      # None means the default here
        if name == 'cname' and v == '':
            v = 'x'
        d = {} if rng.random() < 0.4 else gen.blosc_args(rng)
        d[name] = v
        a = BloscArgs(**d)
        ctx.note = dict(what='%s %s' % (name, show(v)), arguments=repr(d))
        ctx.event('evaluations')
        ctx.must_refuse('append with %s %s' % (name, show(v)), append_fp, fp,
                        io.BytesIO(b'n' * 200), 200, rng.choice([a, dict(a)]))
    else:
        fp.seek(32)
        name, v = rng.choice([
            ('codec', rng.choice(['gzip', 'ZLIB', '', 'zlib ', b'zlib', 7, Odd()])),
            ('level', rng.choice([10, neg(rng), 'x', 2.5, 300, Odd()])),
            ('checksum', rng.choice(['md4', 'ADLER32', 'adler', b'adler32', 9, Odd()])),
            ('magic_format', rng.choice([b'XML', b'json', 'xml', Odd(), 7])),
            ('new_metadata', bad_json(rng))])
        ctx.note = dict(what='%s %s' % (name, show(v)))
        k = {name: v}
        new = k.pop('new_metadata', {'other': 'xyz' * 200})
        ctx.event('evaluations')
        if isinstance(v, str) and v == '':
            return
        ctx.must_refuse('metadata update with %s %s' % (name, show(v)), _rewrite_metadata_fp,
                        fp, new, **k)
    ctx.check(fp.getvalue() == img, 'a refused operation changed the file')
    ctx.nontrivial('append', ctx.note)
