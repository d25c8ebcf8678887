"""C10: metadata updates change the metadata section and nothing else."""
import io
import json
import zlib

from bloscpack.append import _seek_to_metadata
from bloscpack.exceptions import NoMetadataFound

from .. import cli, gen, hist, ops, ref

RULE = ('a case is one history of metadata updates interleaved with appends; evaluations '
        'counts the updates, each judged by the reference parser, a model of the section and '
        'byte comparison outside it; distinct by the sequence of values and settings')
ASSUMPTIONS = ['metadata that Python considers equal to the stored one (1 and True) may count '
               'as unchanged']
REQUIRE = {'updates': 10000, 'succeeded': 5000, 'too_large': 1000, 'unchanged': 300,
           'checksum_changed': 60, 'checksum_size_refused': 300, 'exact_fit': 150,
           'one_too_many': 80, 'grew': 1000, 'shrank': 1000, 'stored_raw': 800,
           'stored_compressed': 800, 'appends': 2000, 'only_compressed_fits': 100,
           'disk': 500, 'cli': 40, 'reads': 5000, 'update_after_append': 500,
           'near': 800, 'same_length': 250, 'no_metadata': 150,
           'swept_sizes': 900}

READ = [u for u in ops.UNPACK_IMG if 'file' not in u.__name__]


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 50}[tier]
    return ([('mem', n) for n in range(4000 * q)] + [('disk', n) for n in range(400 * q)] +
            [('none', n) for n in range(400 * q)] + [('cli', n) for n in range(60 * q)] + [('edge', n) for n in range(600 * q)] +
            [('size', n) for n in range(0, 40 * min(q, 5))])


def raw_of(v):
    return json.dumps(v, separators=(',', ':')).encode()


def stored_size(v, codec, level):
    raw = raw_of(v)
    if codec == 'zlib':
        return min(len(raw), len(zlib.compress(raw, level))), len(raw)
    return len(raw), len(raw)


def new_value(ctx, room, old):
    rng = ctx.rng
    k = rng.randrange(10)
    if k == 0:
        return gen.metadata(rng)
    if k >= 8:
        ctx.event('near')
        v = gen.near(rng, old)
        if len(raw_of(v)) == len(raw_of(old)) and v != old:
            ctx.event('same_length')
        return v
    if k == 1:
        return json.loads(json.dumps(old))
    if k == 2:      # exactly the room as it is, or one more
        n = room - 2 + rng.choice([-1, 0, 0, 1])
        return rng.randbytes(max(0, n) // 2 + 1).hex()[:max(0, n)]
    if k == 3:      # compressible and longer than the room
        return rng.choice('ab') * (room + rng.randrange(50))
    if k == 4:
        return {'k': rng.randbytes(rng.randrange(0, room + 20) // 2).hex()}
    if k == 5:
        return rng.choice([0, 1, 2, [], {}, '', None, False, [None]])
    if k == 6:
        return [rng.randrange(100) for _ in range(rng.randrange(0, max(1, room // 3)))]
    return {'text': gen.text(rng, rng.randrange(0, max(1, room)))}


def settings(ctx, m):
    """keyword arguments and what they mean"""
    rng = ctx.rng
    k = {}
    codec, level, ck = 'zlib', 6, m['checksum']
    if rng.random() < 0.4:
        k['codec'] = rng.choice([None, 'None', 'zlib'])
        codec = m['codec'] if k['codec'] is None else k['codec']
    if rng.random() < 0.4:
        k['level'] = rng.choice([None, 0, 1, 5, 9])
        level = m['level'] if k['level'] is None else k['level']
    if rng.random() < 0.35:
        k['checksum'] = rng.choice([None] + gen.CHECKSUMS + ['adler32', 'crc32'])
        ck = k['checksum'] or ck
    if rng.random() < 0.2:
        k['magic_format'] = rng.choice([None, b'JSON'])
    return k, codec, level, ck


def update(ctx, t, model, img, value, k, codec, level, ck):
    f = ref.parse(img, decode=False)
    m = f.meta
    size, raw = stored_size(value, codec, level)
    same_size = ref.DIGEST_SIZE[ck] == ref.DIGEST_SIZE[m['checksum']]
    equal = value == m['value']
    what = 'update with %d bytes (%d stored) in %d reserved, %s' % (raw, size,
                                                                    m['max_size'], k)
    ctx.event('updates')
    ctx.event('evaluations')
    ctx.note['steps'].append(('update', value if raw < 200 else raw, k))
    fits = size <= m['max_size']
    if size == m['max_size']:
        ctx.event('exact_fit')
    if size == m['max_size'] + 1:
        ctx.event('one_too_many')
    if equal and not gen.same_json(value, m['value']):
        ctx.event('equal_but_not_same')
        return img
    if not (fits and same_size) or equal:
        ctx.event('unchanged' if equal else 'too_large' if not fits
                  else 'checksum_size_refused')
        ctx.must_refuse(what, t.update, value, **k)
        ctx.check(t.image() == img, what + ' was refused but changed the file')
        return img
    if raw > m['max_size']:
        ctx.event('only_compressed_fits')
    ctx.must(what, t.update, value, **k)
    new = t.image()
    after(ctx, img, new, f, value, what, codec, level, ck)
    model.meta = value
    model.section = new[32:f.offsets_pos]
    ctx.event('succeeded')
    if ck != m['checksum']:
        ctx.event('checksum_changed')
    ctx.event('grew' if raw > m['size'] else 'shrank' if raw < m['size'] else 'same_size')
    return new


def after(ctx, img, new, f, value, what, codec, level, ck):
    m = f.meta
    ctx.check(len(new) == len(img) and new[:32] == img[:32] and
              new[f.offsets_pos:] == img[f.offsets_pos:],
              what + ' changed bytes outside the metadata section')
    try:
        g = ref.parse(new)
    except (ref.Bad, Exception) as e:
        ctx.fail('%s left an unreadable file: %s' % (what, e))
    n = g.meta
    ctx.check(gen.same_json(n['value'], value), what + ' stored something else',
              stored=n['value'])
    ctx.check(n['max_size'] == m['max_size'], what + ' changed the reserved space')
    ctx.check(n['end'] == m['end'], what + ' changed the size of the section')
    ctx.check(n['checksum'] == ck, '%s recorded checksum %s' % (what, n['checksum']))
    if n['codec'] == 'zlib':
        ctx.event('stored_compressed')
        ctx.check(codec == 'zlib', what + ' compressed unasked')
        ctx.check(n['level'] == level, '%s recorded level %d' % (what, n['level']))
    else:
        ctx.event('stored_raw')
        ctx.check(n['level'] == 0, what + ' recorded a level without codec')
        ctx.check(n['comp_size'] == n['size'], what + ' sizes disagree')
    size, raw = stored_size(value, codec, level)
    ctx.check((n['comp_size'], n['size']) == (size, raw), '%s recorded sizes %d and %d' %
              (what, n['comp_size'], n['size']))


def read(ctx, img, model, what):
    rng = ctx.rng
    u = rng.choice(READ)
    got, meta = ctx.must('reading after ' + what, u, ctx.dir, ops.Img(img))
    ctx.event('reads')
    ctx.check(gen.same_json(meta, model.meta), 'latest metadata is not what is read back',
              route=u.__name__, got=meta, want=model.meta)
    ctx.check(got == model.data, 'data changed', route=u.__name__)


def start(ctx):
    rng = ctx.rng
    value = gen.metadata(rng)
    if rng.random() < 0.15:
        value = rng.choice([lambda: [rng.randrange(50) for _ in range(rng.randrange(2, 9))],
                            lambda: {'tags': [gen.text(rng, 3) for _ in range(4)], 'n': -1},
                            lambda: {'a': 1, 'b': 2, 'c': {'d': 'E', 'e': 'D'}},
                            lambda: 'Some Text'])()
    ma = gen.metadata_args(rng)
    ma['max_meta'] = rng.choice([('default', 0), ('mul', 1), ('mul', 2), ('add', 0),
                                 ('add', 15), ('add', 200), ('int', 3000),
                                 ('int', 3000 + rng.randrange(2) * rng.randrange(10 ** 5))])
    if ma['max_meta'][0] == 'int' and len(raw_of(value)) > 3000:
        value = {'m': 1}
    bp = gen.bloscpack_args(rng, offsets=rng.random() < 0.8)
    data = gen.data(rng, rng.choice([1, 100, 300, 500]))
    chunk = rng.choice([100, 128, 500])
    img = ctx.must('packing', ops.mk, data,
                   ops.spec(chunk, gen.blosc_args(rng), bp, value, ma))
    ctx.note = dict(value=value, ma=ma, bp=bp, steps=[])
    return img, bp['offsets']


def do_append(ctx, t, model, img):
    rng = ctx.rng
    size = hist.piece_size(rng, model)
    if not model.fits(size):
        return img
    spec = hist.blosc_spec(rng)
    p = gen.data(rng, size)
    old = model.n
    ctx.must('append of %d bytes' % size, t.append, p, spec, rng)
    model.applied(p)
    ctx.event('appends')
    ctx.note['steps'].append(('append', size))
    new = t.image()
    hist.verify(ctx, new, model, 'append after metadata updates',
                hist.effective(spec, model.h['typesize']), old, p)
    return new


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'cli':
        return case_cli(ctx)
    if kind == 'edge':
        return case_edge(ctx)
    if kind == 'none':
        return case_none(ctx)
    if kind == 'size':
        return case_size(ctx, arg)
    img, offsets = start(ctx)
    model = hist.Model(img)
    t = hist.Disk(ctx, img) if kind == 'disk' else hist.Mem(ctx, img)
    appended = False
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        if kind == 'disk':
            ctx.event('disk')
        if offsets and rng.random() < 0.35:
            img2 = do_append(ctx, t, model, img)
            appended = appended or img2 != img
            img = img2
        else:
            f = ref.parse(img, decode=False)
            k, codec, level, ck = settings(ctx, f.meta)
            v = new_value(ctx, f.meta['max_size'], f.meta['value'])
            if appended:
                ctx.event('update_after_append')
            img = update(ctx, t, model, img, v, k, codec, level, ck)
        read(ctx, img, model, 'step')
    ctx.nontrivial(ctx.note['value'], ctx.note['steps'])
    ctx.sample(ctx.note)


def case_edge(ctx):
    """Values whose stored form is exactly as large as the reservation, +-1."""
    rng = ctx.rng
    value = {'v': rng.randrange(1000)}
    room = rng.randrange(30, 200)
    ma = dict(max_meta=('int', room), meta_checksum=rng.choice(gen.CHECKSUMS),
              meta_codec=rng.choice(['None', 'zlib']))
    img = ctx.must('packing', ops.mk, b'data' * 10, ops.spec(100, None, None, value, ma))
    model = hist.Model(img)
    for delta in (-1, 0, 1, rng.randrange(2, 50)):
        codec = rng.choice(['None', 'zlib'])
        if codec == 'None':
            v = 'q' * (room - 2 + delta)
            n = room + delta
        else:
            # incompressible enough that zlib does not help, or compressible
            v = rng.randbytes(room).hex()[:room - 2 + delta]
            if rng.random() < 0.5:
                base = rng.randbytes(300).hex()
                v = next((base[:i] for i in range(len(base), 0, -1)
                          if stored_size(base[:i], 'zlib', 6)[0] <= room + delta), v)
        t = hist.Mem(ctx, img)
        ctx.note['steps'] = []
        update(ctx, t, model, img, v, dict(codec=codec, level=6), codec, 6,
               ma['meta_checksum'])
        ctx.nontrivial(room, delta, v)


def case_size(ctx, part):
    """Every stored size in a stretch of 32, and sizes around powers of two."""
    rng = ctx.rng
    b = 1 << rng.randrange(11, 18)
    sizes = list(range(2 + 32 * part, 34 + 32 * part)) + [b - 1, b, b + 1]
    rng.shuffle(sizes)
    room = max(sizes) + rng.choice([0, 1, 100])
    ck = rng.choice(gen.CHECKSUMS)
    img = ctx.must('packing', ops.mk, b'data' * 10, ops.spec(
        100, None, None, 'start', dict(max_meta=('int', room), meta_checksum=ck)))
    model = hist.Model(img)
    t = hist.Mem(ctx, img)
    ctx.note = dict(part=part, room=room)
    for n in sizes:
        codec, level = rng.choice(['None', 'None', 'zlib']), rng.randrange(10)
        v = rng.randbytes(n).hex()[:n - 2]
        ctx.note['steps'] = []
        img = update(ctx, t, model, img, v, dict(codec=codec, level=level), codec, level, ck)
        ctx.event('swept_sizes')
        read(ctx, img, model, 'update')
    ctx.nontrivial(part, room)


def case_none(ctx):
    """A file without metadata cannot be given any later."""
    rng = ctx.rng
    if rng.random() < 0.5:
        img = hist.start(ctx)[0]
    else:
        img = ctx.must('packing', ops.mk, gen.data(rng, rng.choice([0, 1, 300])), ops.spec(
            rng.choice([7, 100]), gen.blosc_args(rng), gen.bloscpack_args(rng)))
    f = ref.parse(img)
    fp = io.BytesIO(img)
    ctx.event('evaluations')
    if f.meta:
        h = ctx.must('seeking to the metadata', _seek_to_metadata, fp)
        ctx.check(fp.tell() == 32 == h, 'seeking to the metadata went to %d, returned %r' %
                  (fp.tell(), h))
        ctx.event('sought')
        return
    r = ctx.outcome(_seek_to_metadata, fp)
    ctx.check(r[0] != 'ok', 'metadata were found in a file without')
    ctx.check(r[1] == NoMetadataFound.__name__, 'a file without metadata is refused with %s' %
              r[1])
    ctx.check(fp.getvalue() == img, 'a refused update changed the file')
    ctx.event('no_metadata')
    ctx.nontrivial(img)


def case_cli(ctx):
    rng = ctx.rng
    img, offsets = start(ctx)
    if not offsets:
        return
    model = hist.Model(img)
    for _ in range(2):
        m = ref.parse(img, decode=False).meta
        for _ in range(20):
            v = new_value(ctx, m['max_size'], m['value'])
            if v is not None and v != m['value'] and \
                    stored_size(v, 'zlib', 6)[0] <= m['max_size']:
                break
        else:
            return
        size = min(hist.piece_size(rng, model), 5000)
        if not model.fits(size):
            return
        p = gen.data(rng, size)
        path = ops.write(ctx.path('x.blp'), img)
        ops.write(ctx.path('new'), p)
        with open(ctx.path('m.json'), 'w') as fp:
            fp.write(json.dumps(v, indent=rng.choice([None, 1])) + '\n')
        r = cli.run(rng, [rng.choice(['append', 'a']), rng.choice(['-m', '--metadata']),
                          'm.json', 'x.blp', 'new'], ctx.dir, share=0.02)
        ctx.event('cli')
        ctx.event('evaluations')
        ctx.check(r.rc == 0, 'blpk append -m failed: %r' % r)
        new = ops.read(path)
        model.applied(p)
        model.meta = v
        g = ref.parse(new)
        model.section = new[32:g.offsets_pos]
        ctx.check(g.meta['end'] == m['end'] and g.meta['max_size'] == m['max_size'],
                  'blpk append -m changed the size of the metadata section')
        hist.verify(ctx, new, model, 'blpk append -m')
        img = new
        read(ctx, img, model, 'blpk append -m')
        ctx.nontrivial(new)
