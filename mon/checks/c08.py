"""C08: any history of appends equals concatenation and keeps the format."""
from bloscpack.append import append_fp

from .. import gen, hist, huge, ops, ref

RULE = ('a case is one history of appends to one file; evaluations counts the appends, each '
        'judged by the reference parser and a model of content, chunk count and '
        'reservation; distinct by the sequence of sizes and settings')
ASSUMPTIONS = ['stale bytes behind the last chunk may remain when it got smaller',
               'the chunk size of the file is known (not -1)']
REQUIRE = {'appends': 12000, 'refused': 1000, 'zero': 300, 'exact_fill': 300,
           'exact_multiple': 500, 'exact_reservation': 100, 'one_too_many': 100,
           'foreign': 500, 'disk': 1000, 'cli': 100, 'settings_checked': 5000,
           'after_refusal': 300, 'last_chunk_grew': 1000, 'metadata': 1000,
           'many_new_chunks': 20, 'many_chunks': 40, 'huge_files': 4, 'beyond_4G': 1,
           'empty_original': 20, 'unknown_last_chunk': 100, 'reads': 10000}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    return ([('huge', n) for n in range({'quick': 3, 'thorough': 16}[tier])] +
            [('mem', n) for n in range(3000 * q)] + [('foreign', n) for n in range(800 * q)] +
            [('disk', n) for n in range(600 * q)] + [('cli', n) for n in range(60 * q)] +
            [('many', n) for n in range(30 * q)] +
            [('fill', n) for n in range(200 * q)])


READ = [u for u in ops.UNPACK_IMG if 'file' not in u.__name__]


def step(ctx, t, m, size, spec, img, refusable=True):
    rng = ctx.rng
    piece = gen.data(rng, size)
    n = m.needs(size)
    ok = m.fits(size)
    what = '%s of %d bytes (%s new chunks, %d reserved)' % (t.name, size, n, m.app)
    ctx.event('appends')
    ctx.event('evaluations')
    ctx.note['steps'].append((size, spec))
    old_n = m.n
    if not ok:
        ctx.event('refused')
        if n == m.app + 1:
            ctx.event('one_too_many')
        ctx.must_refuse(what, t.append, piece, spec, rng)
        ctx.check(t.image() == img, what + ' was refused but changed the file')
        return img, False
    if size == 0:
        ctx.event('zero')
    if size and size == m.chunk - m.last:
        ctx.event('exact_fill')
    if n and (m.last + size) % m.chunk == 0:
        ctx.event('exact_multiple')
    if n and n == m.app:
        ctx.event('exact_reservation')
    if size and not n:
        ctx.event('last_chunk_grew')
    r = ctx.must(what, t.append, piece, spec, rng)
    if t.name == 'append_fp':
        ctx.check(r == n, '%s returned %r' % (what, r))
    m.applied(piece)
    img = t.image()
    hist.verify(ctx, img, m, what, hist.effective(spec, m.h['typesize']), old_n, piece)
    for u in rng.sample(READ, 2):
        got, meta = ctx.must('reading after ' + what, u, ctx.dir, ops.Img(img))
        ctx.event('reads')
        ctx.check(got == m.data, 'unpacked content is not the concatenation',
                  route=u.__name__)
        ctx.check(gen.same_json(meta, m.meta), 'metadata changed by an append', got=meta)
    if m.meta is not None:
        ctx.event('metadata')
    return img, True


def case_huge(ctx, arg):
    """Appends to a file that ends before, at or beyond 2 or 4 gigabytes."""
    rng = ctx.rng
    total = [2 ** 31, 2 ** 32][arg % 2] + rng.randrange(-2, 2) * huge.BLOCK + \
        rng.choice([-1, 0, 1, 12345, -54321])
    app = rng.choice([4, 10])
    fp, src, s = huge.make(ctx, total, rng.choice([None, {'a': 1}]), app,
                           checksum=rng.choice(['None', 'adler32']), level=rng.choice([0, 1]))
    n0 = ref.split(total, huge.BLOCK)[0]
    ctx.note['steps'] = []
    for _ in range(3):
        size = rng.choice([1, 70000, huge.BLOCK, 2 * huge.BLOCK + 5, huge.BLOCK + rng.randrange(99)])
        n1 = ref.split(src.n + size, huge.BLOCK)[0]
        if n1 - n0 > app:
            break
        ctx.note['steps'].append(size)
        more = huge.tail(src, size)
        fp.seek(0)
        before = ref.split(src.n, huge.BLOCK)[0]
        r = ctx.must('appending %d bytes at %d' % (size, src.n), append_fp, fp, more, size,
                     ops.A(dict(s['blosc'], clevel=0)))
        ctx.check(r == n1 - before, 'append returned %r' % r)
        src = more
        src.pos = 0
        ctx.event('appends')
        ctx.event('evaluations')
        huge.verify(ctx, fp, src, s, app - (n1 - n0), 'after an append')
    huge.read_back(ctx, fp, src, s, 'after appends')
    ctx.nontrivial('huge', total, ctx.note['steps'])


def case_many(ctx, arg):
    """A few appends, each of which adds hundreds of chunks."""
    rng = ctx.rng
    chunk = rng.choice([1, 2, 8, 33])
    s = ops.spec(chunk, dict(gen.blosc_args(rng), clevel=rng.randrange(3)),
                 dict(gen.bloscpack_args(rng, offsets=True),
                      max_app=('int', rng.choice([600, 1500, 3000]))), None, None)
    n = rng.choice([1, 2, 40, 300])
    img = ctx.must('packing', ops.mk, gen.data(rng, n * chunk - rng.randrange(chunk)), s)
    ctx.note.update(spec=s, steps=[])
    m = hist.Model(img)
    t = rng.choice([hist.Mem, hist.Mem, hist.Disk])(ctx, img)
    for _ in range(3):
        k = rng.choice([254, 255, 256, 257, 300, 511, 513, 1025, rng.randrange(100, 1300)])
        size = m.chunk - m.last + k * chunk - rng.choice([0, 0, 1])
        if rng.random() < 0.3:
            size = hist.piece_size(rng, m)
        ctx.event('many_new_chunks', m.fits(size) and m.needs(size) > 250)
        img, _ = step(ctx, t, m, size, hist.blosc_spec(rng), img)
    ctx.nontrivial(s, ctx.note['steps'])


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'huge':
        return case_huge(ctx, arg)
    if kind == 'many':
        return case_many(ctx, arg)
    img, data, s = hist.foreign_start(ctx) if kind == 'foreign' else hist.start(ctx)
    m = hist.Model(img, ctx.note.get('unknown_last', False))
    if kind == 'foreign':
        ctx.event('foreign')
        if ctx.note['unknown_last']:
            ctx.event('unknown_last_chunk')
    t = {'disk': hist.Disk, 'cli': hist.Cli}.get(kind, hist.Mem)(ctx, img)
    ctx.note['steps'] = []
    if m.chunk == 0:
        ctx.event('empty_original')
    steps = rng.choice([1, 2, 3, 4, 6, 10]) if kind != 'cli' else rng.choice([1, 2, 4])
    was_refused = False
    if kind == 'fill':
        # use up the whole reservation in random portions
        steps = 40
    for i in range(steps):
        if kind in ('disk', 'cli'):
            ctx.event(kind)
        size = hist.piece_size(rng, m)
        if i == 0 and ctx.note.get('unknown_last'):
            size = max(size, 1)     # nothing appended may leave it unknown
        spec = hist.cli_spec(rng) if kind == 'cli' else hist.blosc_spec(rng)
        img, ok = step(ctx, t, m, size, spec, img)
        if ok and was_refused:
            ctx.event('after_refusal')
        was_refused = not ok
        if kind == 'fill' and m.app == 0 and m.last == m.chunk:
            ctx.event('filled_up')
            break
    if rng.random() < 0.1:
        got, meta = ctx.must('reading the final file', rng.choice(ops.UNPACK_IMG), ctx.dir,
                             ops.Img(img))
        ctx.check(got == m.data, 'final content differs')
    ctx.nontrivial(s, ctx.note['steps'])
    ctx.sample(dict(ctx.note, kind=kind))
