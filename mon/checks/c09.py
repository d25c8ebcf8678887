"""C09: a refused append or metadata update leaves the file byte-identical."""
import io
import json
import os

from bloscpack.append import append_fp, _rewrite_metadata_fp
from bloscpack.args import BloscArgs

from .. import cli, gen, hist, ops, ref
from ..core import is_ordinary

RULE = ('an evaluation is one call that has to be refused (or, for randomly damaged files, '
        'may be) with the file compared before and after; distinct by (file, reason)')
ASSUMPTIONS = []
REQUIRE = {'no_space': 200, 'many_no_space': 12, 'no_offsets': 100, 'damaged_last_payload': 2000,
           'damaged_last_digest': 1000, 'damaged_last_header': 500,
           'damaged_metadata': 200, 'bad_blosc_args': 500, 'truncated_last': 100,
           'meta_too_large': 200, 'meta_unchanged': 200, 'meta_checksum_size': 200,
           'meta_unknown_codec': 100, 'meta_unknown_serializer': 100,
           'meta_unknown_checksum': 100, 'meta_bad_level': 100, 'meta_unserialisable': 100,
           'meta_damaged': 200, 'random_damage_refused': 1000, 'after_appends': 500,
           'disk': 500, 'cli': 60, 'cli_metadata_refused': 12, 'cli_with_metadata': 5, 'zero_append_refused': 100}

KEY = 'cli-append-kept-when-metadata-refused'


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    return ([('append', n) for n in range(3000 * q)] + [('update', n) for n in range(3000 * q)] +
            [('lastchunk', n) for n in range(300 * q)] + [('fuzz', n) for n in range(1500 * q)] +
            [('cli', n) for n in range(110 * q)] + [('climeta', n) for n in range(16 * q)] +
            [('many', n) for n in range(12 * q)])


def history(ctx, img, offsets=True):
    """A few appends first."""
    rng = ctx.rng
    if not offsets or rng.random() < 0.4:
        return img
    t = hist.Mem(ctx, img)
    m = hist.Model(img)
    for _ in range(rng.randrange(1, 4)):
        size = hist.piece_size(rng, m)
        if m.fits(size):
            p = gen.data(rng, size)
            ctx.must('append', t.append, p, hist.blosc_spec(rng), rng)
            m.applied(p)
            ctx.event('after_appends')
    return t.image()


def target(ctx, img):
    k = ctx.rng.random()
    if k < 0.25:
        ctx.event('disk')
        return hist.Disk(ctx, img)
    return hist.Mem(ctx, img)


def refuse(ctx, what, t, img, fn, *a, **k):
    ctx.event('evaluations')
    e = ctx.must_refuse(what, fn, *a, **k)
    now = t.image()
    ctx.check(now == img, '%s was refused (%s) but changed the file' %
              (what, type(e).__name__),
              changed=[i for i in range(min(len(now), len(img))) if now[i] != img[i]][:10],
              sizes=(len(img), len(now)))
    return e


BAD_BLOSC = [dict(clevel=10), dict(clevel=-1), dict(clevel='7'), dict(typesize=0),
             dict(typesize=256), dict(typesize=-1), dict(cname='nope'), dict(cname=''),
             dict(shuffle=7), dict(clevel=3.5), dict(typesize='8')]


def bad_blosc(rng):
    k = rng.randrange(4)
    full = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')
    if k == 0:
        del full[rng.choice(sorted(full))]
        return full
    if k == 1:
        full['extra'] = 1
        return full
    full.update(rng.choice(BAD_BLOSC))
    return BloscArgs(**full) if k == 2 else full


def flip(d, lo, hi, rng):
    p = rng.randrange(lo, hi)
    d[p] ^= rng.randrange(1, 256)
    return p


def case_append(ctx):
    rng = ctx.rng
    img, data, s = hist.start(ctx)
    img = history(ctx, img)
    f = ref.parse(img)
    m = hist.Model.__new__(hist.Model)
    m.chunk, m.last, m.app = f.h['chunk_size'], f.h['last_chunk'], f.h['max_app']
    reason = rng.choice(['no_space', 'no_offsets', 'bad_blosc_args', 'damaged_metadata',
                         'truncated_last'])
    size = rng.choice([0, 1, rng.randrange(0, 500)])
    d = bytearray(img)
    spec = hist.blosc_spec(rng)
    if reason == 'no_space':
        size = max(0, m.chunk - m.last) + m.chunk * m.app + rng.choice([1, 1, 2, 100])
        if size > 200000 or m.chunk == 0:
            return
    elif reason == 'no_offsets':
        bp = dict(s['bpack'], offsets=False)
        d = bytearray(ctx.must('packing', ops.mk, data, dict(s, bpack=bp)))
    elif reason == 'damaged_metadata':
        if f.meta is None or f.meta['checksum'] == 'None':
            return
        mm = f.meta
        if rng.random() < 0.6:
            flip(d, mm['start'], mm['start'] + mm['comp_size'], rng)
        else:
            flip(d, mm['digest_pos'], mm['end'], rng)
    elif reason == 'truncated_last':
        c = f.chunks[-1]
        del d[rng.randrange(c['pos'], c['end']):]
    t = target(ctx, bytes(d))
    ctx.note['reason'] = reason
    ctx.event(reason)
    if size == 0:
        ctx.event('zero_append_refused')
    piece = gen.data(rng, size)
    if reason == 'bad_blosc_args':
        if isinstance(t, hist.Disk):
            from bloscpack.append import append
            new = ops.write(ctx.path('x.new'), piece)
            refuse(ctx, 'append with invalid settings', t, bytes(d), append, t.path, new,
                   bad_blosc(rng))
        else:
            t.fp.seek(0)
            b = bad_blosc(rng)
            refuse(ctx, 'append with invalid settings %r' % (b,), t, bytes(d), append_fp,
                   t.fp, io.BytesIO(piece), len(piece), b)
    else:
        refuse(ctx, 'append (%s)' % reason, t, bytes(d), t.append, piece, spec, rng)
    ctx.nontrivial(bytes(d), reason, size)


def case_many(ctx):
    """Many new chunks, for which there is not quite enough space."""
    rng = ctx.rng
    chunk = rng.choice([1, 1, 2, 5, 16])
    old = rng.choice([1, 3, 300, 5000])
    new = rng.choice([256, 1000, 4097, 10000, 2 ** 15, 2 ** 16, 2 ** 16 + 1]) + rng.randrange(3)
    room = new - rng.choice([1, 1, 1, 2, new // 2])
    img = ctx.must('packing', ops.mk, gen.data(rng, chunk * old), ops.spec(
        chunk, None, dict(max_app=('int', room), checksum=rng.choice(gen.CHECKSUMS)),
        rng.choice([None, {'a': 1}])))
    t = target(ctx, img)
    # one chunk of one byte is the smallest that there can be
    size = chunk * new - rng.randrange(chunk)
    ctx.note = dict(chunk=chunk, old=old, new=new, room=room)
    refuse(ctx, 'append of %d chunks to a reservation of %d' % (new, room), t, img, t.append,
           gen.data(rng, size), hist.blosc_spec(rng), rng)
    ctx.event('many_no_space')
    ctx.nontrivial(chunk, old, new, room, size)


def case_lastchunk(ctx):
    """Every kind of damage to the last chunk is reported, never re-sealed."""
    rng = ctx.rng
    while True:
        img, data, s = hist.start(ctx)
        if s['bpack']['checksum'] != 'None' and data:
            break
    img = history(ctx, img)
    f = ref.parse(img)
    c = f.chunks[-1]
    areas = [('header', c['pos'], c['pos'] + 16),
             ('payload', c['pos'] + 16, c['pos'] + c['ctbytes']),
             ('digest', c['pos'] + c['ctbytes'], c['end'])]
    for name, lo, hi in areas:
        for _ in range(10):
            if lo == hi:
                continue
            d = bytearray(img)
            p = flip(d, lo, hi, rng)
            if rng.random() < 0.2:
                flip(d, lo, hi, rng)
            if bytes(d) == img:
                continue
            try:
                ref.parse(bytes(d), decode=False)
                ctx.event('collision')
                continue
            except ref.Bad:
                pass
            size = rng.choice([0, 1, f.h['chunk_size'] - f.h['last_chunk'],
                               rng.randrange(0, 600)])
            free = f.h['chunk_size'] - f.h['last_chunk']
            if size > free + f.h['chunk_size'] * f.h['max_app']:
                size = rng.randrange(free + 1)
            if size == 0:
                ctx.event('zero_append_refused')
            ctx.event('damaged_last_' + name)
            ctx.note['damage'] = (name, p - lo, size)
            t = target(ctx, bytes(d)) if rng.random() < 0.1 else hist.Mem(ctx, bytes(d))
            refuse(ctx, 'append of %d bytes with a damaged last chunk (%s)' % (size, name),
                   t, bytes(d), t.append, gen.data(rng, size), hist.blosc_spec(rng), rng)
            ctx.nontrivial(bytes(d), size)


def case_update(ctx):
    rng = ctx.rng
    value = gen.metadata(rng)
    ma = gen.metadata_args(rng)
    ma['max_meta'] = rng.choice([('add', 0), ('add', 10), ('add', 300)])
    bp = gen.bloscpack_args(rng)
    data = gen.data(rng, 300)
    img = ctx.must('packing', ops.mk, data, ops.spec(100, None, bp, value, ma))
    img = history(ctx, img, bp['offsets'])
    f = ref.parse(img)
    d = bytearray(img)
    new = {'fresh': rng.randrange(10 ** 6)}
    big = {'big': rng.randbytes(f.meta['max_size'] * 2 + 20).hex()}
    small = 0 if value != 0 else 1           # always fits
    cur = f.meta['checksum']
    size = ref.DIGEST_SIZE[cur]
    others = [c for c in gen.CHECKSUMS if ref.DIGEST_SIZE[c] != size]
    reason = rng.choice(['too_large', 'unchanged', 'checksum_size', 'unknown_codec',
                         'unknown_serializer', 'unknown_checksum', 'bad_level',
                         'unserialisable', 'damaged'])
    ctx.note = dict(value=value, ma=ma, reason=reason)
    k = {}
    if rng.random() < 0.4:
        k['codec'] = rng.choice([None, 'None', 'zlib'])
    if rng.random() < 0.4:
        k['level'] = rng.choice([None, 1, 9])
    new = small
    if reason == 'too_large':
        new = big
    elif reason == 'unchanged':
        new = json.loads(json.dumps(value))
    elif reason == 'checksum_size':
        k['checksum'] = rng.choice(others)
    elif reason == 'unknown_codec':
        k['codec'] = rng.choice(['bz2', 'ZLIB', 'none', '', 7])
    elif reason == 'unknown_serializer':
        k['magic_format'] = rng.choice([b'PICKLE', b'json', b'', 'JSON', b'TOOLONGNAME'])
    elif reason == 'unknown_checksum':
        k['checksum'] = rng.choice(['sha3', 'MD5', '', 'crc64', 5])
    elif reason == 'bad_level':
        k['level'] = rng.choice([-1, 10, 100, '3', 2.5])
    elif reason == 'unserialisable':
        new = rng.choice([{1, 2}, b'bytes', {'a': object()}, {'a': {'b': {3}}}, [1, 2j],
                          {(1, 2): 3}])
    elif reason == 'damaged':
        if cur == 'None':
            return
        mm = f.meta
        flip(d, mm['start'], mm['start'] + mm['comp_size'], rng)
    ctx.event('meta_' + reason)
    t = target(ctx, bytes(d))
    refuse(ctx, 'metadata update (%s, %s)' % (reason, k), t, bytes(d), t.update, new, **k)
    ctx.nontrivial(bytes(d), reason, k)


def case_fuzz(ctx):
    """Random damage anywhere: whenever the call raises, nothing was written."""
    rng = ctx.rng
    img, data, s = hist.start(ctx)
    f = ref.parse(img)
    for _ in range(6):
        d = bytearray(img)
        for _ in range(rng.choice([1, 1, 2, 5])):
            k = rng.randrange(5)
            if k == 0:
                p = rng.randrange(32)
                # no astronomical counts: those only exhaust memory
                d[p] = rng.randrange(256) if p < 16 or p in (16, 24) else 0
            elif k == 1 and len(d) > f.first > 32:
                flip(d, 32, f.first, rng)
            elif k == 2:
                del d[rng.randrange(len(d)):]
            else:
                flip(d, 0 if len(d) < 33 else 32, len(d), rng) if len(d) > 33 else None
            if len(d) < 40:
                break
        if f.meta is not None and len(d) >= 64:
            d[48:52] = img[48:52]       # a huge reservation would be filled with zeros
        d = bytes(d)
        t = hist.Mem(ctx, d)
        ctx.event('evaluations')
        try:
            if f.meta is not None and rng.random() < 0.4:
                t.update({'n': 1})
            else:
                p = gen.data(rng, rng.choice([0, 1, 50, 300]))
                t.append(p, hist.blosc_spec(rng), rng)
        except Exception as e:
            ctx.event('random_damage_refused')
            ctx.check(t.image() == d, 'refused with %s but the file was changed' %
                      type(e).__name__)
        ctx.nontrivial(d)


def case_cli(ctx):
    rng = ctx.rng
    img, data, s = hist.start(ctx)
    f = ref.parse(img)
    d = bytearray(img)
    k = rng.randrange(4)
    size = rng.choice([0, 1, 100])
    if k == 0:
        free = f.h['chunk_size'] - f.h['last_chunk']
        size = free + f.h['chunk_size'] * f.h['max_app'] + 1
        if size > 10 ** 6 or not f.h['chunk_size']:
            return
    elif k == 1:
        d = bytearray(ctx.must('packing', ops.mk, data,
                               dict(s, bpack=dict(s['bpack'], offsets=False))))
    elif k == 2:
        if s['bpack']['checksum'] == 'None':
            return
        flip(d, f.chunks[-1]['pos'] + 16, f.chunks[-1]['end'], rng) \
            if f.chunks[-1]['ctbytes'] > 16 else flip(d, f.chunks[-1]['pos'],
                                                      f.chunks[-1]['pos'] + 16, rng)
    else:
        d[4] = rng.choice([0, 1, 2, 4, 255])
    t = hist.Cli(ctx, bytes(d))
    if f.meta is not None and rng.random() < 0.5:
        # metadata that would fit: neither the data nor these may be stored
        with open(ctx.path('m.json'), 'w') as fp:
            fp.write(rng.choice(['7', '{}', '[]', '""', '0']))
        t.more = [rng.choice(['-m', '--metadata']), ctx.path('m.json')]
        ctx.event('cli_with_metadata')
    ctx.event('cli')
    refuse(ctx, 'blpk append (kind %d)' % k, t, bytes(d), t.append, gen.data(rng, size),
           hist.cli_spec(rng), rng)
    ctx.nontrivial(bytes(d), size)


def case_climeta(ctx):
    """blpk append -m with metadata that cannot be stored."""
    rng = ctx.rng
    value = {'m': 1}
    k = rng.choice(['none', 'large', 'same'])
    bp = dict(checksum=rng.choice(gen.CHECKSUMS), max_app=('int', 20))
    data = gen.data(rng, 300)
    s = ops.spec(100, None, bp, None if k == 'none' else value, None)
    img = ctx.must('packing', ops.mk, data, s)
    path = ops.write(ctx.path('a.blp'), img)
    piece = gen.data(rng, rng.randrange(1, 300))
    ops.write(ctx.path('new'), piece)
    meta = {'none': value, 'large': {'x': rng.randbytes(500).hex()}, 'same': value}[k]
    with open(ctx.path('m.json'), 'w') as fp:
        json.dump(meta, fp)
    r = cli.run(rng, ['append', '-m', 'm.json', 'a.blp', 'new'], ctx.dir)
    ctx.event('cli_metadata_refused')
    ctx.event('evaluations')
    ctx.check(r.rc > 0, 'blpk append -m was not refused: %r' % r)
    now = ops.read(path)
    ctx.nontrivial(img, k)
    if now == img:
        return
    # what the known behaviour leaves: the data appended, the metadata as it was
    fp = io.BytesIO(img)
    append_fp(fp, io.BytesIO(piece), len(piece), BloscArgs())
    ctx.fail('blpk append -m (%s metadata) was refused but changed the file' % k,
             key=KEY if now == fp.getvalue() else None)


def case(ctx, kind, arg):
    globals()['case_' + kind](ctx)
    ctx.sample(dict(ctx.note, case_kind=kind))
