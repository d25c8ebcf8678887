"""C03: packed output has the documented layout and the requested settings."""
import ast
import json
import zlib

import numpy as np

from .. import gen, huge, npgen, ops, ref

RULE = ('a case packs one input with one argument combination through one packing route '
        'and has the output judged byte range by byte range by an independent parser; '
        'distinct by (route, sizes, settings); non-trivial when the input is not empty')
ASSUMPTIONS = ['with one Blosc thread, compressing a chunk twice gives the same bytes '
               '(checked on every chunk; chunks where it does not hold are only decoded)']
REQUIRE = {'files': 1500, 'chunks': 5000, 'offset_entries': 5000, 'metadata_sections': 400,
           'nullified_codec': 30, 'no_offsets': 200, 'defaults': 20, 'arrays': 200,
           'memory_sinks': 100, 'reservation': 200, 'large_reservations': 75,
           'many_chunks': 8, 'metadata_sizes': 500, 'large_inputs': 6, 'huge_files': 2, 'beyond_4G': 1}
DEF_BLOSC = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')
ROUTES = dict((f.__name__, f) for f in ops.PACK_IMG + ops.PACK_MEM)


def plan(tier, seed):
    out = []
    for r in ROUTES:
        for size in (0, 1, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21 + 7):
            out.append(('default', [r, size]))
        out.append(('default', [r, 8 * 2 ** 20 + 1 + len(out) * 2 ** 18]))
        for size in (0, 1, 15, 16, 17, 32, 33, 160):
            out.append(('edge', [r, size]))
    for ck in gen.CHECKSUMS:
        for mck in gen.CHECKSUMS:
            out.append(('pair', [ck, mck]))
    for lvl in range(10):
        for codec in ('zlib', 'None'):
            out.append(('meta', [codec, lvl]))
    for cname in gen.CNAMES:
        for lvl in range(10):
            out.append(('codec', [cname, lvl]))
    for ts in range(1, 256):
        out.append(('typesize', ts))
    for n in (255, 256, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 10000,
              16384, 16385, 32767, 32769, 65535, 65536, 65537, 100000, 131073, 262145, 2 ** 20 + 3):
        for k in (1, 2, 7):
            out.append(('reserve', [n, k]))
    for n in range({'quick': 2, 'thorough': 10}[tier]):
        out.insert(n, ('huge', n))
    for n in (1000, 4096, 8193, 10001):
        for offs in (True, False):
            out.append(('chunks', [n, offs]))
    for n in range(40):
        out.append(('msize', n))
    for n in range({'quick': 12000, 'thorough': 300000}[tier]):
        out.append(('random', n))
    for n in range({'quick': 4000, 'thorough': 100000}[tier]):
        out.append(('array', n))
    return out


def chunk_settings(ctx, raw, data, args, typesize=None):
    """The stored chunk is what Blosc makes of this data with the requested settings."""
    want = ops.compress_direct(data, args, typesize)
    if raw == want:
        ctx.event('chunks')
        return
    if want != ops.compress_direct(data, args, typesize):
        ctx.event('blosc_not_deterministic')
        return
    a, b = ref.parse_chunk_header(raw), ref.parse_chunk_header(want)
    ctx.fail('chunk does not record the requested Blosc settings: header %s, expected %s' %
             (a, b), args=args)


def judge_meta(ctx, m, s, exact=True):
    ma = dict(meta_codec='zlib', meta_level=6, meta_checksum='adler32',
              max_meta=('default', 0))
    ma.update(s['ma'] or {})
    raw = m['raw']
    ctx.event('metadata_sections')
    ctx.check(gen.same_json(m['value'], s['meta']), 'stored metadata differ',
              got=m['value'])
    comp = zlib.compress(raw, ma['meta_level'])
    want = ['zlib'] if ma['meta_codec'] == 'zlib' else ['None']
    if want == ['zlib'] and len(comp) > len(raw):
        want = ['None']
        ctx.event('nullified_codec')
    elif len(comp) == len(raw):
        want = ['zlib', 'None']
    ctx.check(m['codec'] in want, 'metadata codec %s, expected %s' % (m['codec'], want))
    if m['codec'] == 'zlib':
        ctx.check(m['level'] == ma['meta_level'], 'metadata level %s, asked for %s' %
                  (m['level'], ma['meta_level']))
        ctx.check(len(m['payload']) == len(comp), 'metadata not compressed at the level '
                  'asked for')
    ctx.check(m['checksum'] == ma['meta_checksum'], 'metadata checksum %s, asked for %s' %
              (m['checksum'], ma['meta_checksum']))
    ctx.check(m['max_size'] == gen.max_meta_expected(ma['max_meta'], m['size']),
              'metadata reservation %s, asked for %s of %s' %
              (m['max_size'], ma['max_meta'], m['size']))
    ctx.check(m['user'] == b'\0' * 8, 'user codec set')


def judge(ctx, img, data, s, typesize=None):
    try:
        f = ref.conform(img)
    except ref.Bad as e:
        ctx.fail('output does not follow the format: %s' % e)
    h = f.h
    bl = dict(DEF_BLOSC)
    bl.update(s['blosc'] or {})
    if typesize is not None:
        bl['typesize'] = typesize
    bk = dict(offsets=True, checksum='adler32', max_app=('default', 0))
    bk.update(s['bpack'] or {})
    chunk = s['chunk_bytes'] if 'chunk_bytes' in s else s['chunk']
    if chunk == '1M':
        chunk = 2 ** 20
    n, c, last = ref.split(len(data), chunk)
    want = dict(version=3, offsets=bool(bk['offsets']), metadata=s['meta'] is not None,
                checksum=bk['checksum'], typesize=bl['typesize'], chunk_size=c,
                last_chunk=last, nchunks=n,
                max_app=gen.max_app_expected(bk['max_app'], n, bk['offsets']))
    ctx.check(h == want, 'header differs from the request: %s' %
              dict((k, (h[k], want[k])) for k in want if h.get(k) != want[k]))
    ctx.check(f.data == data, 'chunks do not hold the input')
    if s['meta'] is not None:
        judge_meta(ctx, f.meta, s)
    for ch in f.chunks if len(f.chunks) < 40 else ctx.rng.sample(f.chunks, 40):
        chunk_settings(ctx, ch['raw'], ch['data'], bl)
    ctx.event('files')
    if f.entries:
        ctx.event('offset_entries', len(f.entries))
        if h['max_app']:
            ctx.event('reservation')
    else:
        ctx.event('no_offsets')
    return f


def judge_mem(ctx, sink, data, s):
    bl = dict(DEF_BLOSC)
    bl.update(s['blosc'] or {})
    ck = (s['bpack'] or {}).get('checksum', 'adler32')
    chunk = 2 ** 20 if s['chunk'] == '1M' else s['chunk']
    n, c, last = ref.split(len(data), chunk)
    ctx.check(sink.nchunks == n and len(sink.chunks) == n, 'memory sink has %s chunks, not %s' %
              (sink.nchunks, n))
    for i in range(n):
        piece = data[i * c:(i + 1) * c] if i < n - 1 else data[(n - 1) * c:]
        chunk_settings(ctx, sink.chunks[i], piece, bl)
        if ck != 'None':
            ctx.check(sink.checksums[i] == ref.digest(ck, sink.chunks[i]),
                      'memory sink holds a wrong %s digest for chunk %d' % (ck, i))
    ctx.check(gen.same_json(sink.metadata, s['meta']), 'memory sink metadata differ')
    ctx.event('memory_sinks')


def run(ctx, p, data, s):
    ctx.note = dict(route=p.__name__, size=len(data), spec=s)
    im = ctx.must('packing', p, ctx.dir, data, s)
    ctx.event('route:' + p.__name__)
    if im.sink is not None:
        judge_mem(ctx, im.sink, data, s)
    else:
        judge(ctx, im.img, data, s)
    if data:
        ctx.nontrivial(p.__name__, len(data), s)
    if s['blosc'] is None and s['bpack'] is None:
        ctx.event('defaults')
    ctx.sample(ctx.note)


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'default':
        r, size = arg
        chunk = '1M'
        if size > 2 ** 23:
            # many chunks of the default size, or a few large ones
            size += rng.randrange(rng.choice([10, 2 ** 23, 2 ** 24]))
            chunk = rng.choice(['1M', '1M', 2 ** 22, 2 ** 23 - 1, 2 ** 24, 2 ** 24 + 8,
                                rng.randrange(2 ** 20, 2 ** 25)])
            ctx.event('large_inputs')
        run(ctx, ROUTES[r], gen.data(rng, size, 'i8'),
            ops.spec(chunk, meta={'some': 'metadata', 'n': [1, 2, 3], 'pad': 'p' * 50}))
    elif kind == 'edge':
        r, size = arg
        run(ctx, ROUTES[r], gen.data(rng, size), ops.spec(16))
    elif kind == 'pair':
        run(ctx, rng.choice(ops.PACK_IMG), gen.data(rng, 500),
            ops.spec(200, None, dict(checksum=arg[0]), {'a': 'b' * 30},
                     dict(meta_checksum=arg[1])))
    elif kind == 'meta':
        for m in ({'a': 1}, {'a': 'b' * 200}, 'x', ['random', rng.randbytes(40).hex()]):
            run(ctx, rng.choice(ops.PACK_IMG), b'0123456789',
                ops.spec(meta=m, ma=dict(meta_codec=arg[0], meta_level=arg[1])))
    elif kind == 'codec':
        cname, lvl = arg
        for sh in (False, True, 2):
            run(ctx, rng.choice(list(ROUTES.values())), gen.data(rng, 20000, 'i8'),
                ops.spec(8000, dict(typesize=8, clevel=lvl, shuffle=sh, cname=cname)))
    elif kind == 'typesize':
        run(ctx, rng.choice(list(ROUTES.values())), gen.data(rng, 3000, 'i8'),
            ops.spec(1000, dict(typesize=arg)))
    elif kind == 'reserve':
        # offset sections around the sizes a buffer may have
        total, k = arg
        run(ctx, rng.choice(ops.PACK_IMG), gen.data(rng, 100 * k - 30),
            ops.spec(100, None, dict(checksum=rng.choice(gen.CHECKSUMS),
                                     max_app=('int', total - k)),
                     rng.choice([None, {'a': 1}])))
        ctx.event('large_reservations')
    elif kind == 'msize':
        # metadata and reservations of every size in a stretch, and around powers of two
        b = 1 << rng.randrange(10, 18)
        for n in list(range(2 + 16 * arg, 18 + 16 * arg)) + [b - 1, b, b + 1]:
            room = rng.choice([n, n, n + 1, b + n, 65536 + n])
            run(ctx, rng.choice(ops.PACK_IMG), gen.data(rng, 20),
                ops.spec(meta=rng.randbytes(n).hex()[:n - 2], bpack=dict(
                    offsets=rng.random() < 0.7, max_app=('int', 2)),
                    ma=dict(meta_codec=rng.choice(['None', 'zlib']), max_meta=('int', room),
                            meta_checksum=rng.choice(gen.CHECKSUMS))))
            ctx.event('metadata_sizes')
    elif kind == 'huge':
        total = [2 ** 31, 2 ** 32][arg % 2] + rng.randrange(1, 4) * huge.BLOCK + \
            rng.choice([0, 1, 12345])
        app = rng.choice([0, 5, 1000])
        fp, src, s = huge.make(ctx, total, rng.choice([None, {'a': 1}]), app,
                               offsets=arg < 2 or rng.random() < 0.8,
                               level=rng.choice([0, 1]),
                               checksum=rng.choice(['None', 'adler32', 'sha1']))
        if not s['bpack']['offsets']:
            app = 0
        end = huge.verify(ctx, fp, src, s, app, 'a packed file')
        ctx.check(end == fp.size(), 'stray bytes behind the last chunk')
        ctx.event('files')
        ctx.nontrivial('huge', total, s)
    elif kind == 'chunks':
        n, offs = arg
        run(ctx, rng.choice(ops.PACK_IMG), gen.data(rng, 3 * n - 1, 'random'),
            ops.spec(3, dict(typesize=1, clevel=1, shuffle=False),
                     dict(offsets=offs, max_app=('int', rng.choice([0, 3, 8192])))))
        ctx.event('many_chunks')
    elif kind == 'random':
        size, chunk = gen.size_and_chunk(rng)
        run(ctx, rng.choice(list(ROUTES.values())), gen.data(rng, size),
            ops.random_spec(rng, chunk))
    else:
        array(ctx)


def array(ctx):
    rng = ctx.rng
    a, desc, keep = npgen.array(rng)
    flat = np.asfortranarray(a) if np.isfortran(a) else np.ascontiguousarray(a)
    data = flat.tobytes('A')
    item = a.itemsize
    chunk = rng.choice([None, item * max(1, rng.randrange(1, max(2, a.size)), a.size // 300 + 1)])
    if chunk is None and len(data) > 2 ** 20:
        chunk = len(data)
    s = ops.random_spec(rng, chunk, meta=False)
    s['ma'] = gen.metadata_args(rng) if rng.random() < 0.5 else None
    ctx.note = dict(desc, spec=s)
    k = dict(blosc_args=ops.A(s['blosc']), bloscpack_args=ops.B(s['bpack']),
             metadata_args=ops.M(s['ma']))
    if chunk is not None:
        k['chunk_size'] = chunk
    s['chunk_bytes'] = chunk or 2 ** 20
    p = rng.choice(ops.NP_PACK_IMG)
    im = ctx.must('packing', p, ctx.dir, a, k)
    meta = ref.parse(im.img, decode=False).meta
    if meta is None:
        ctx.fail('array file without metadata')
    s['meta'] = meta['value']
    padded = a.dtype.names is not None and len(data) > 0
    if padded:
        # padding bytes of a copied array are not determined: compare what is stored
        f = ref.parse(im.img)
        ctx.check(len(f.data) == len(data), 'array bytes')
        data = f.data if not (a.flags.c_contiguous or a.flags.f_contiguous) else data
    judge(ctx, im.img, data, s, typesize=item)
    v = meta['value']
    ctx.check(isinstance(v, dict) and v.get('container') == 'numpy', 'container missing')
    ctx.check(v.get('shape') == list(a.shape), 'shape in metadata %s' % (v.get('shape'),))
    ctx.check(v.get('order') == ('F' if np.isfortran(a) else 'C'), 'order in metadata')
    try:
        dt = np.lib.format.descr_to_dtype(ast.literal_eval(v['dtype']))
    except Exception as e:
        ctx.fail('dtype in metadata not readable: %s' % e, dtype=v.get('dtype'))
    d = npgen.dtype_diff(a.dtype, dt)
    ctx.check(d is None, 'dtype in metadata: %s' % d)
    ctx.event('arrays')
    if a.size:
        ctx.nontrivial(desc, p.__name__, json.dumps(s, default=repr))
