"""C06: metadata is stored losslessly and its corruption is reported."""
import io
import json

import numpy as np
from bloscpack.append import append_fp
from bloscpack.file_io import CompressedFPSource, _read_beginning

from .. import gen, ops, ref

RULE = ('a case packs one metadata value with one set of arguments and reads it through the '
        'routes, or damages one stored metadata section (each damaged file read through one '
        'route is an evaluation); distinct by value, arguments and damage')
ASSUMPTIONS = ['top-level null is the library\'s notation for "no metadata"',
               'a damaged section whose checksum still matches according to the reference '
               'parser is a collision and not judged',
               'the fields of the metadata header are not covered by the format\'s checksum']
REQUIRE = {'alike': 1500, 'round_trips': 5000, 'special_values': 200, 'compressed': 500, 'stored_raw': 500,
           'exact_fit': 200, 'too_small_refused': 200, 'damaged_payload': 5000,
           'damaged_digest': 2000, 'damaged_prealloc': 500, 'array_files': 50,
           'callable_size_checked': 100, 'after_append': 20}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 20}[tier]
    out = []
    for i in range(len(gen.SPECIAL_META)):
        for j in range(8 * q):
            out.append(('special', [i, j]))
    out += [('trip', n) for n in range(6000 * q)]
    out += [('fit', n) for n in range(400 * q)]
    out += [('damage', n) for n in range(500 * q)]
    out += [('routes', n) for n in range(150 * q)]
    out += [('big', n) for n in range(4 * q)]
    return out


def r_beginning(d, im):
    fp = io.BytesIO(im.img)
    h, meta, mh, offs = _read_beginning(fp)
    return None, meta


def r_source(d, im):
    return None, CompressedFPSource(io.BytesIO(im.img)).metadata


READERS = ops.UNPACK_IMG + [r_beginning, r_source]
FAST = [u for u in READERS if 'file' not in u.__name__]


def value_back(ctx, got, want, route):
    ctx.check(gen.same_json(got, want, True), 'metadata came back different through %s' % route,
              stored=want, returned=got)


def trip(ctx, value):
    rng = ctx.rng
    data = gen.data(rng, rng.choice([0, 1, 50, 300]))
    s = ops.random_spec(rng, rng.choice([1000, 100, 77]), meta=False)
    s['meta'] = value
    s['ma'] = gen.metadata_args(rng) if rng.random() < 0.85 else None
    ctx.note = dict(spec=s, size=len(data))
    ctx.event('round_trips')
    if rng.random() < 0.12:
        im = ctx.must('packing', rng.choice(ops.PACK_MEM), ctx.dir, data, s)
        for u in ops.UNPACK_MEM:
            got, m = ctx.must('reading', u, ctx.dir, im)
            value_back(ctx, m, value, u.__name__)
            ctx.check(got == data, 'metadata altered the data', route=u.__name__)
        ctx.event('memory')
    else:
        p = rng.choice(ops.PACK_IMG) if rng.random() < 0.2 else ops.p_bytes_bytes
        im = ctx.must('packing', p, ctx.dir, data, s)
        m = ref.parse(im.img).meta
        ctx.event('compressed' if m['codec'] == 'zlib' else 'stored_raw')
        value_back(ctx, m['value'], value, 'reference parser')
        for u in rng.sample(FAST, 2) + [rng.choice(READERS)]:
            got, mm = ctx.must('reading', u, ctx.dir, im)
            value_back(ctx, mm, value, u.__name__)
            ctx.check(got is None or got == data, 'metadata altered the data',
                      route=u.__name__)
    ctx.nontrivial(json.dumps(value), s['ma'], p.__name__ if im.img else 'mem')


def fit(ctx):
    rng = ctx.rng
    value = gen.metadata(rng)
    data = gen.data(rng, 30)
    ma = gen.metadata_args(rng)
    ma['max_meta'] = ('int', 200000)
    img = ctx.must('packing', ops.mk, data, ops.spec(1000, None, None, value, ma))
    m = ref.parse(img).meta
    need = m['comp_size']
    for room, ok in [(need, True), (need + 1, True), (need - 1, False), (0, False),
                     (need // 2, False)]:
        kind = rng.choice(['int', 'add'])
        arg = room
        if kind == 'add':
            arg = room - m['size']
        sp = ops.spec(1000, None, None, value, dict(ma, max_meta=(kind, arg)))
        ctx.note = dict(value=value, needs=need, room=room, kind=kind)
        p = rng.choice(ops.PACK_IMG)
        if ok:
            im = ctx.must('packing with enough room', p, ctx.dir, data, sp)
            f = ref.parse(im.img)
            ctx.check(f.meta['max_size'] == room, 'reserved %d instead of %d' %
                      (f.meta['max_size'], room))
            ctx.check(f.data == data, 'data differs')
            value_back(ctx, f.meta['value'], value, 'reference parser')
            u = rng.choice(READERS)
            value_back(ctx, ctx.must('reading', u, ctx.dir, im)[1], value, u.__name__)
            ctx.event('exact_fit')
        else:
            ctx.must_refuse('metadata of %d bytes in %d reserved bytes' % (need, room),
                            p, ctx.dir, data, sp)
            ctx.event('too_small_refused')
    # a callable is given the size of the serialised metadata
    seen = []

    def size(n):
        seen.append(n)
        return n + 7
    import bloscpack as bp
    from bloscpack.args import MetadataArgs
    img = ctx.must('packing', bp.pack_bytes_to_bytes, data, metadata=value,
                   metadata_args=MetadataArgs(max_meta_size=size,
                                              meta_codec=ma['meta_codec'],
                                              meta_checksum=ma['meta_checksum']))
    f = ref.parse(img)
    ctx.check(seen and set(seen) == {f.meta['size']},
              'reservation callable called with %s for metadata of %d bytes' %
              (seen, f.meta['size']))
    ctx.check(f.meta['max_size'] == f.meta['size'] + 7, 'reservation is not the result of '
              'the callable')
    ctx.event('callable_size_checked')
    ctx.must_refuse('reservation beyond 2**32-1', bp.pack_bytes_to_bytes, data,
                    metadata=value, metadata_args=MetadataArgs(max_meta_size=2 ** 32))
    ctx.nontrivial(json.dumps(value), ma)


def make_file(ctx, appended=False):
    rng = ctx.rng
    value = gen.metadata(rng)
    ma = gen.metadata_args(rng)
    ma['meta_checksum'] = rng.choice(gen.CHECKSUMS[1:])
    ma['max_meta'] = rng.choice([('default', 0), ('add', 0), ('add', 20), ('mul', 2)])
    data = gen.data(rng, rng.choice([1, 50, 300]))
    bp = gen.bloscpack_args(rng, offsets=True if appended else None)
    if appended:
        bp['max_app'] = ('int', 400)
    img = ctx.must('packing', ops.mk, data, ops.spec(100, None, bp, value, ma))
    if appended:
        fp = io.BytesIO(img)
        piece = gen.data(rng, rng.randrange(1, 300))
        ctx.must('append', append_fp, fp, io.BytesIO(piece), len(piece))
        img = fp.getvalue()
        data += piece
        ctx.event('after_append')
    f = ref.parse(img)
    ctx.note = dict(value=value, ma=ma, comp=f.meta['comp_size'], appended=appended)
    return img, f, data, value


def judge(ctx, d, u, f):
    ctx.event('evaluations')
    try:
        u(ctx.dir, ops.Img(d))
    except Exception as e:
        ctx.event('refused:' + type(e).__name__)
        return
    try:
        ref.parse_meta(d, 32)
    except (ref.Bad, ValueError, Exception):
        ctx.fail('damaged metadata was accepted by %s: %s' % (u.__name__,
                                                              ctx.note['damage']))
    ctx.event('collision')


def flips(rng, n):
    return {1, 1 << rng.randrange(8), rng.randrange(1, 256)}


def damage(ctx):
    rng = ctx.rng
    img, f, data, value = make_file(ctx, rng.random() < 0.2)
    m = f.meta
    if rng.random() < 0.15:
        a = np.frombuffer(bytearray(gen.data(rng, 40)), 'i4')
        k = dict(metadata_args=ops.M(dict(meta_checksum=m['checksum'],
                                          meta_codec=rng.choice(['zlib', 'None']))))
        img = ctx.must('packing', ops.np_bytes, ctx.dir, a, k).img
        m = ref.parse(img).meta
        readers = ops.NP_UNPACK_IMG[:3] + FAST[:2]
        ctx.event('array_files')
    else:
        readers = FAST
    payload = range(m['start'], m['start'] + m['comp_size'])
    if len(payload) > 150:
        payload = sorted(rng.sample(payload, 140) + [payload[0], payload[-1]])
    dig = range(m['digest_pos'], m['end'])
    for name, rg in (('payload', payload), ('digest', dig)):
        for p in rg:
            for v in flips(rng, 1):
                d = bytearray(img)
                d[p] ^= v
                ctx.note['damage'] = '%s byte %d of %d ^= %d' % (name, p - rg[0], len(rg), v)
                ctx.event('damaged_' + name)
                judge(ctx, bytes(d), rng.choice(readers), f)
                ctx.nontrivial(img, p, v)
    for a, b in (m['digest_pos'], m['end']), (m['start'], m['start'] + m['comp_size']):
        for what, x in gen.alike(rng, img[a:b]) if b > a else ():
            ctx.note['damage'] = what
            ctx.event('alike')
            judge(ctx, img[:a] + x + img[b:], rng.choice(readers), f)
    # larger damage
    for _ in range(10):
        d = bytearray(img)
        k = rng.randrange(5)
        n = m['comp_size']
        if k == 0:
            d[m['start']:m['start'] + n] = bytes(n)
        elif k == 1:
            d[m['digest_pos']:m['end']] = bytes(m['end'] - m['digest_pos'])
        elif k == 2:
            d[m['start']:m['start'] + n] = rng.randbytes(n)
        elif k == 3:
            # another valid JSON text of the same length
            d[m['start']:m['start'] + n] = b'7' * n
        else:
            for p in rng.sample(range(m['start'], m['start'] + n), min(n, 4)):
                d[p] = rng.randrange(256)
        if d == img:
            continue
        ctx.note['damage'] = 'kind %d' % k
        ctx.event('damaged_payload')
        judge(ctx, bytes(d), rng.choice(readers), f)
        ctx.nontrivial(img, bytes(d[m['start']:m['end']]))
    # unused space does not matter
    free = range(m['start'] + m['comp_size'], m['digest_pos'])
    if free:
        clean = dict((u, u(ctx.dir, ops.Img(img))) for u in readers)
        for _ in range(6):
            d = bytearray(img)
            if rng.random() < 0.5:
                d[free[0]:free[-1] + 1] = rng.randbytes(len(free))
            else:
                d[rng.choice(free)] ^= rng.randrange(1, 256)
            u = rng.choice(readers)
            ctx.note['damage'] = 'unused space'
            ctx.event('damaged_prealloc')
            ctx.event('evaluations')
            got = ctx.must('reading with other bytes in the unused space', u, ctx.dir,
                           ops.Img(bytes(d)))
            ctx.check(same(got, clean[u]), 'bytes in the unused space changed the result '
                      'of %s' % u.__name__)


def same(a, b):
    if isinstance(a, tuple):
        return a[0] == b[0] and gen.same_json(a[1], b[1])
    return a.dtype == b.dtype and a.tobytes() == b.tobytes()


def routes(ctx):
    """Every reader refuses the same damaged section."""
    rng = ctx.rng
    img, f, data, value = make_file(ctx)
    m = f.meta
    d = bytearray(img)
    p = rng.choice(list(range(m['start'], m['start'] + m['comp_size'])) +
                   list(range(m['digest_pos'], m['end'])))
    d[p] ^= rng.randrange(1, 256)
    ctx.note['damage'] = 'byte %d' % p
    ctx.event('damaged_digest' if p >= m['digest_pos'] else 'damaged_payload')
    for u in READERS:
        judge(ctx, bytes(d), u, f)
    ctx.nontrivial(img, p)


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'special':
        ctx.event('special_values')
        v = gen.SPECIAL_META[arg[0]]
        trip(ctx, {'v': None} if v is None else v)
    elif kind == 'trip':
        trip(ctx, gen.metadata(rng) if rng.random() < 0.98 else
             gen.deep(rng, rng.choice([100, 200, 300])))
    elif kind == 'big':
        v = rng.choice([{'k%d' % i: rng.random() for i in range(20000)},
                        rng.randbytes(150000).hex(), [0] * 100000,
                        {'a': 'é' * 60000}])
        ctx.event('big')
        data = gen.data(rng, 100)
        s = ops.spec(1000, None, None, v, dict(max_meta=('add', 0)))
        img = ctx.must('packing', ops.mk, data, s)
        for u in FAST:
            got, m = ctx.must('reading', u, ctx.dir, ops.Img(img))
            value_back(ctx, m, v, u.__name__)
        ctx.nontrivial('big', arg)
    else:
        {'fit': fit, 'damage': damage, 'routes': routes}[kind](ctx)
    ctx.sample(dict(ctx.note, case_kind=kind))
