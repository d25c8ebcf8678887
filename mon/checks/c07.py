"""C07: truncated, foreign and out-of-range input is refused by every reader."""
import io
import struct

import numpy as np

from bloscpack.append import append_fp
from bloscpack.file_io import CompressedFPSource, _read_beginning

from .. import gen, npgen, ops, ref
from ..core import is_ordinary

RULE = ('an evaluation gives one strict prefix of a packed file, or one file with a header '
        'violating a documented constraint, to one reader; distinct by (file, cut or '
        'violation); every cut position of every generated file is used')
ASSUMPTIONS = ['option bits of the metadata header are reserved and ignored by the format '
               'revision in use, so only those of the file header count as undefined']
REQUIRE = {'ends': 300, 'prefixes': 80000, 'cut_in_header': 5000, 'cut_in_metadata': 5000,
           'cut_in_offsets': 5000, 'cut_in_chunk': 20000, 'cut_in_digest': 3000,
           'cut_at_chunk_boundary': 500, 'no_checksum': 10000, 'array_prefixes': 10000,
           'file_routes': 2000, 'bad_magic': 200, 'bad_version': 200, 'bad_options': 200,
           'bad_checksum_code': 200, 'bad_codec': 100, 'bad_meta_checksum_code': 100,
           'bad_serializer': 100, 'bad_meta_level': 100, 'bad_range': 300,
           'garbage': 200, 'inspections': 10000, 'cut_numbers': 10, 'appends': 10000}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    out = [('prefix', n) for n in range(400 * q)]
    out += [('aprefix', n) for n in range(120 * q)]
    out += [('ends', n) for n in range(60 * q)]
    out += [('files', n) for n in range(60 * q)]
    out += [('magic', n) for n in range(300 * q)]
    out += [('version', v) for v in range(256) if v != 3]
    out += [('options', n) for n in range(4, 256)]
    out += [('checksum', n) for n in range(9, 256)]
    out += [('meta', n) for n in range(800 * q)]
    out += [('range', n) for n in range(500 * q)]
    out += [('garbage', n) for n in range(300 * q)]
    return out


FAST = [u for u in ops.UNPACK_IMG if 'file' not in u.__name__]
SLOW = [u for u in ops.UNPACK_IMG if 'file' in u.__name__]
NPFAST = [ops.nu_bytes, ops.nu_fp]
NPSLOW = [ops.nu_file]


def refused(ctx, what, u, img):
    ctx.event('evaluations')
    try:
        r = u(ctx.dir, ops.Img(img))
    except Exception as e:
        if not is_ordinary(e):
            ctx.fail('%s through %s ended in %s' % (what, u.__name__, type(e).__name__))
        ctx.event('refused:' + type(e).__name__)
        return
    ctx.fail('%s was accepted by %s' % (what, u.__name__),
             result=repr(r)[:200], image=img[:200].hex())


def make_file(ctx, small=False):
    rng = ctx.rng
    bp = gen.bloscpack_args(rng)
    if rng.random() < 0.4:
        bp['checksum'] = 'None'
    bp['max_app'] = ('int', rng.choice([0, 0, 1, 5]))
    chunk = rng.choice([8, 16, 50, 64, 100, 128, 200, 1000])
    n = rng.choice([1, 1, 2, 3, 5])
    size = rng.choice([0, 1, n * chunk, n * chunk - 1, n * chunk + 1, rng.randrange(300)])
    size = min(size, 600)
    meta = gen.metadata(rng) if rng.random() < 0.4 else None
    ma = gen.metadata_args(rng)
    ma['max_meta'] = rng.choice([('add', 0), ('add', 5)])
    if meta is not None and rng.random() < 0.2:
        # a part of these is JSON, too
        meta = rng.choice([rng.randrange(10, 10 ** 9), -12, 2.5, 10 ** 30, -0.125])
        ma['meta_codec'] = 'None'
        ma['meta_checksum'] = rng.choice(['None', 'None', ma['meta_checksum']])
        ctx.event('cut_numbers')
    data = gen.data(rng, size, rng.choice(['random', 'random', 'text', 'zeros', 'mixed']))
    s = ops.spec(max(chunk, size // 6 + 1), gen.blosc_args(rng), bp, meta, ma)
    ctx.note = dict(spec=s, size=size)
    img = ctx.must('packing', ops.mk, data, s)
    return img, ref.parse(img), data


def region(ctx, f, cut):
    if cut < 32:
        ctx.event('cut_in_header')
    elif f.meta is not None and cut < f.meta['end']:
        ctx.event('cut_in_metadata')
    elif cut < f.first:
        ctx.event('cut_in_offsets')
    else:
        for c in f.chunks:
            if cut == c['pos']:
                ctx.event('cut_at_chunk_boundary')
            elif c['pos'] < cut < c['pos'] + c['ctbytes']:
                ctx.event('cut_in_chunk')
            elif c['pos'] + c['ctbytes'] <= cut < c['end']:
                ctx.event('cut_in_digest')


def i_beginning(d, im):
    return _read_beginning(io.BytesIO(im.img))


def i_source(d, im):
    s = CompressedFPSource(io.BytesIO(im.img))
    return s.nchunks, s.metadata


def i_append(d, im):
    return append_fp(io.BytesIO(im.img), io.BytesIO(b'some more'), 9)


def inspected(ctx, f, img, cut):
    """What looks at the beginning only has to have all of it; an append needs everything."""
    what = 'prefix of %d of %d bytes' % (cut, len(img))
    used = f.offsets_pos
    if f.h['offsets'] and f.h['nchunks']:
        used += 8 * f.h['nchunks']
    elif f.meta is not None and f.meta['checksum'] == 'None':
        # nothing of use stands behind the metadata themselves
        used = 64 + f.meta['comp_size']
    if cut < used:
        for u in (i_beginning, i_source):
            refused(ctx, what, u, img[:cut])
            ctx.event('inspections')
    if f.h['offsets'] and f.h['max_app']:
        refused(ctx, what, i_append, img[:cut])
        ctx.event('appends')


def prefix(ctx):
    rng = ctx.rng
    img, f, data = make_file(ctx)
    for u in FAST:
        got, m = ctx.must('reading the complete file', u, ctx.dir, ops.Img(img))
        ctx.check(got == data, 'complete file read differently')
    for cut in range(len(img)):
        region(ctx, f, cut)
        ctx.event('prefixes')
        if f.h['checksum'] == 'None':
            ctx.event('no_checksum')
        for u in rng.sample(FAST, 2):
            refused(ctx, 'prefix of %d of %d bytes' % (cut, len(img)), u, img[:cut])
        inspected(ctx, f, img, cut)
    for c in f.chunks:
        for u in FAST:
            refused(ctx, 'prefix ending at a chunk', u, img[:c['pos']])
            refused(ctx, 'prefix ending before the last byte', u, img[:c['end'] - 1])
    ctx.nontrivial(img)
    ctx.sample(ctx.note)


def ends(ctx):
    """A digest at the end of the file, or of what is inspected, that ends like padding."""
    rng = ctx.rng
    ck = rng.choice(gen.CHECKSUMS[1:])
    meta = rng.random() < 0.5
    sp = ops.spec(100, gen.blosc_args(rng), dict(checksum=ck, offsets=rng.random() < 0.5,
                                                 max_app=('int', 0)), None)

    def make():
        if meta:
            return ops.mk(b'abc', dict(
                sp, meta={'a': rng.randrange(10 ** 9)}, bpack=dict(sp['bpack'], offsets=False),
                ma=dict(gen.metadata_args(rng), meta_checksum=ck, max_meta=('add', 0))))
        return ops.mk(gen.data(rng, rng.randrange(1, 200)), sp)

    def digest(img):
        g = ref.parse(img, decode=False)
        g = g.meta['digest'] if meta else g.chunks[-1]['digest']
        return g[-1:] if rng.random() < 0.8 else g[-1:] if g[-1:] == b'\0' else b''
    img = gen.special_ends(make, digest)
    if img is None:
        return
    f = ref.parse(img)
    g = f.meta['digest'] if meta else f.chunks[-1]['digest']
    end = f.meta['end'] if meta else len(img)
    ctx.note = dict(checksum=ck, meta=meta, digest=g.hex())
    for n in range(1, len(g) + 1):
        ctx.event('ends')
        if meta:
            inspected(ctx, f, img, end - n)
        for u in FAST:
            refused(ctx, 'prefix without %d bytes of the digest' % n, u, img[:end - n])
    ctx.nontrivial(img)


def files(ctx):
    rng = ctx.rng
    img, f, data = make_file(ctx)
    cuts = {0, 1, 31, 32, len(img) - 1, f.first, f.offsets_pos}
    for c in f.chunks:
        cuts |= {c['pos'], c['pos'] + 15, c['pos'] + 16, c['pos'] + c['ctbytes'],
                 c['end'] - 1, c['pos'] + c['ctbytes'] - 1}
    for cut in sorted(cuts):
        if cut < len(img):
            region(ctx, f, cut)
            ctx.event('prefixes')
            for u in SLOW:
                ctx.event('file_routes')
                refused(ctx, 'prefix of %d of %d bytes' % (cut, len(img)), u, img[:cut])
    ctx.nontrivial(img, 'files')


def aprefix(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 7, 20, 40])
    dt = rng.choice(['u1', '<i4', '>f8', [('a', '<i2'), ('b', 'S3')]])
    dt = np.dtype(dt)
    a = np.frombuffer(bytearray(gen.data(rng, max(1, n * dt.itemsize), 'random')), 'u1')
    a = a[:n * dt.itemsize].view(dt) if n else np.zeros((0,), dt)
    bp = gen.bloscpack_args(rng)
    bp['max_app'] = ('int', rng.choice([0, 2]))
    if rng.random() < 0.5:
        bp['checksum'] = 'None'
    k = dict(chunk_size=max(1, n // rng.choice([1, 2, 3])) * dt.itemsize,
             bloscpack_args=ops.B(bp),
             metadata_args=ops.M(dict(max_meta=('add', rng.choice([0, 3])),
                                      meta_checksum=rng.choice(gen.CHECKSUMS))))
    ctx.note = dict(dtype=str(dt), n=n, bp=bp)
    img = ctx.must('packing', ops.np_bytes, ctx.dir, a, k).img
    f = ref.parse(img)
    got = ctx.must('reading the complete file', ops.nu_bytes, ctx.dir, ops.Img(img))
    ctx.check(got.tobytes() == a.tobytes(), 'complete file read differently')
    for cut in range(len(img)):
        region(ctx, f, cut)
        ctx.event('prefixes')
        ctx.event('array_prefixes')
        refused(ctx, 'prefix of %d of %d bytes of an array file' % (cut, len(img)),
                rng.choice(NPFAST), img[:cut])
        if cut % 7 == 0:
            refused(ctx, 'prefix of an array file', ops.nu_file, img[:cut])
            ctx.event('file_routes')
    ctx.nontrivial(img)


def everyone(ctx, what, img, array=None):
    """All readers must refuse."""
    for u in (NPFAST + NPSLOW if array else FAST) + (
            [ctx.rng.choice(SLOW)] if not array else FAST):
        refused(ctx, what, u, img)


def array_file(ctx):
    a = np.arange(ctx.rng.randrange(1, 20), dtype='i4')
    return ctx.must('packing', ops.np_bytes, ctx.dir, a,
                    dict(bloscpack_args=ops.B(gen.bloscpack_args(ctx.rng)))).img


def pick(ctx, meta=False):
    rng = ctx.rng
    if rng.random() < 0.3:
        return bytearray(array_file(ctx)), True
    while True:
        img, f, data = make_file(ctx)
        if f.meta is not None or not meta:
            return bytearray(img), False


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind in ('prefix', 'files', 'aprefix', 'ends'):
        return {'prefix': prefix, 'ends': ends, 'files': files, 'aprefix': aprefix}[kind](ctx)
    if kind == 'garbage':
        ctx.event('garbage')
        b = rng.choice([lambda: rng.randbytes(rng.randrange(0, 300)),
                        lambda: bytes(rng.randrange(0, 300)),
                        lambda: b'blpk', lambda: b'blp' + rng.randbytes(100),
                        lambda: b'\x93NUMPY\x01\x00' + rng.randbytes(200),
                        lambda: b'PK\x03\x04' + rng.randbytes(100),
                        lambda: gen.data(rng, rng.randrange(300), 'text')])()
        if b[:4] == b'blpk' and len(b) > 4:
            return
        everyone(ctx, 'foreign input', b, rng.random() < 0.5)
        ctx.nontrivial(b)
        return
    d, arr = pick(ctx, kind == 'meta')
    if kind == 'magic':
        what = 'altered magic marker'
        ctx.event('bad_magic')
        if rng.random() < 0.7:
            d[rng.randrange(4)] ^= rng.randrange(1, 256)
        else:
            d[:4] = rng.choice([b'BLPK', b'blpk'[::-1], b'\0\0\0\0', b'blpK', b'klpb'])
    elif kind == 'version':
        what = 'format version %d' % arg
        ctx.event('bad_version')
        d[4] = arg
    elif kind == 'options':
        what = 'options 0x%02x' % arg
        ctx.event('bad_options')
        d[5] = (arg & ~3) | (d[5] & 3) if rng.random() < 0.7 else arg
    elif kind == 'checksum':
        what = 'checksum code %d' % arg
        ctx.event('bad_checksum_code')
        d[6] = arg
    elif kind == 'meta':
        k = rng.randrange(4)
        if k == 0:
            ctx.event('bad_meta_checksum_code')
            d[32 + 9] = rng.randrange(9, 256)
        elif k == 1:
            ctx.event('bad_codec')
            d[32 + 10] = rng.randrange(2, 256)
        elif k == 2:
            ctx.event('bad_meta_level')
            d[32 + 11] = rng.randrange(10, 256)
        else:
            ctx.event('bad_serializer')
            d[32:40] = rng.choice([b'json\0\0\0\0', b'JSON2\0\0\0', bytes(8), b'PICKLE\0\0',
                                   b'JSO\0\0\0\0\0', rng.randbytes(8), b'XJSON\0\0\0'])
            if bytes(d[32:40]).strip(b'\0') == b'JSON':
                return
        what = 'metadata header with kind %d damage' % k
    else:
        ctx.event('bad_range')
        cs, lc = struct.unpack('<ii', d[8:16])
        n, app = struct.unpack('<qq', d[16:32])
        k = rng.randrange(9)
        neg32 = rng.choice([-2, -3, -2 ** 31, rng.randrange(-2 ** 31, -1)])
        neg64 = rng.choice([-2, -3, -2 ** 63, rng.randrange(-2 ** 63, -1)])
        big32 = rng.choice([2 ** 31 - 1, ref.MAXBUF + 1])
        if k == 0:
            cs = neg32
        elif k == 1:
            lc = neg32
        elif k == 2:
            cs, lc = big32, rng.choice([lc, -1])
        elif k == 3:
            lc = big32
            cs = rng.choice([cs, -1])
        elif k == 4:
            lc = cs + rng.choice([1, 2, 1000])
        elif k == 5:
            n = neg64
        elif k == 6:
            app = rng.choice([-1, neg64])
        elif k == 7:
            n, app = rng.choice([(ref.MAXI64, 1), (n or 1, ref.MAXI64), (2 ** 62, 2 ** 62)])
        else:
            n, app = rng.choice([(-1, 1), (-1, 2), (-1, 100), (-1, ref.MAXI64), (-2, 2),
                                 (-2, 3), (-3, 3), (-2 ** 31, 2 ** 31), (-5, 2000),
                                 (-2, ref.MAXI64), (-2 ** 63, ref.MAXI64)])
        d[8:32] = struct.pack('<iiqq', cs, lc, n, app)
        what = 'header chunk_size=%d last_chunk=%d nchunks=%d max_app=%d' % (cs, lc, n, app)
    ctx.note['what'] = what
    everyone(ctx, what, bytes(d), arr)
    ctx.nontrivial(bytes(d))
