"""C12: an interrupted append cannot damage metadata or earlier chunks."""
import io
import os
import signal
import time

import blosc
from bloscpack.append import append, append_fp
from bloscpack.file_io import _read_bloscpack_header

from .. import cli, fpmon, gen, hist, ops, ref
from .c11 import child, count, points, surfaced, wait

RULE = ('an evaluation is one crash image of an append (file after the first k writes, the '
        'last one whole or torn, after an injected error, or after the process was killed) '
        'given to the checker and readers; distinct by (file, piece, crash point)')
ASSUMPTIONS = ['file contents after a crash are a prefix of the writes in the order issued; '
               'the 32 byte header is written whole']
REQUIRE = {'crash_images': 8000, 'torn': 3000, 'unpacked': 800, 'refused': 2000,
           'shorter_than_full': 150, 'with_metadata': 2000, 'error_images': 2000,
           'killed': 50, 'killed_midway': 30, 'after_appends': 200, 'no_checksum': 500,
           'middle_of_new_chunks': 1000, 'offsets_written': 300, 'disk_append': 60,
           'cli_killed': 10, 'many_chunks': 40}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    return ([('trace', n) for n in range(2000 * q)] + [('error', n) for n in range(700 * q)] +
            [('kill', n) for n in range(90 * q)] + [('timed', n) for n in range(12 * q)])


READ = [u for u in ops.UNPACK_IMG if 'file' not in u.__name__]


class File(object):
    """Original file, the piece, and what has to stay."""

    def __init__(self, ctx, big=False):
        rng = ctx.rng
        if big:
            chunk = rng.choice([2000, 40000])
            n = rng.randrange(1, 4)
            data = gen.data(rng, chunk * n - rng.choice([0, 1, chunk // 2]), 'random')
            s = ops.spec(chunk, None, dict(offsets=True, checksum=rng.choice(gen.CHECKSUMS),
                                           max_app=('int', 20)),
                         rng.choice([None, {'k': [1]}]))
            img = ctx.must('packing', ops.mk, data, s)
            ctx.note = dict(spec=s, size=len(data))
        else:
            img = hist.start(ctx)[0] if rng.random() < 0.8 else hist.foreign_start(ctx)[0]
        m = hist.Model(img, unknown_last=True)
        t = hist.Mem(ctx, img)
        if rng.random() < 0.4:
            for _ in range(rng.randrange(1, 3)):
                size = hist.piece_size(rng, m)
                if size and m.fits(size):
                    p = gen.data(rng, size)
                    ctx.must('append', t.append, p, hist.blosc_spec(rng), rng)
                    m.applied(p)
                    ctx.event('after_appends')
            img = t.image()
        size = 0
        for _ in range(12):
            size = hist.piece_size(rng, m)
            if big:
                size = rng.randrange(m.chunk * 10)
            if size and m.fits(size):
                break
        if not m.fits(size):
            size = 0
        self.img = img
        self.piece = gen.data(rng, size, 'random' if big else None)
        self.f = ref.parse(img)
        self.spec = hist.blosc_spec(rng)
        self.full = self.f.data + self.piece
        self.new = m.needs(size) or 0
        self.total = self.f.h['nchunks'] + self.f.h['max_app']

    def args(self, rng):
        return hist.blosc_value(rng, self.spec)


def judge(ctx, x, img, what, unpack=True):
    f, h = x.f, x.f.h
    ctx.event('crash_images')
    ctx.event('evaluations')
    last = f.chunks[-1]['pos']
    if f.meta:
        ctx.event('with_metadata')
    ctx.check(img[32:f.offsets_pos] == x.img[32:f.offsets_pos],
              what + ' changed the metadata section')
    ctx.check(img[f.first:last] == x.img[f.first:last],
              what + ' changed chunks before the last one')
    n = h['nchunks']
    ctx.check(img[f.offsets_pos:f.offsets_pos + 8 * n] ==
              x.img[f.offsets_pos:f.offsets_pos + 8 * n],
              what + ' changed the offsets of existing chunks')
    try:
        g = ref.parse_header(img)
        _read_bloscpack_header(io.BytesIO(img))
    except Exception as e:
        ctx.fail('%s left an invalid header: %s' % (what, e))
    for k in ('version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size'):
        ctx.check(g[k] == h[k], '%s changed %s in the header' % (what, k))
    ctx.check(g['nchunks'] + g['max_app'] == x.total and
              n <= g['nchunks'] <= n + x.new, '%s left nchunks=%d max_app=%d' %
              (what, g['nchunks'], g['max_app']))
    if not unpack:
        return
    rng = ctx.rng
    if h['checksum'] == 'None':
        ctx.event('no_checksum')
        return
    us = [rng.choice(READ)]
    if rng.random() < 0.05:
        us = READ + [ops.u_file_file]
    for u in us:
        r = ctx.outcome(u, ctx.dir, ops.Img(img))
        if r[0] != 'ok':
            ctx.event('refused')
            continue
        got, meta = r[1]
        ctx.event('unpacked')
        if len(got) < len(x.full):
            ctx.event('shorter_than_full')
        ctx.check(got[:len(f.data)] == f.data, '%s: the file unpacks without the complete '
                  'original content' % what, got=len(got), original=len(f.data))
        ctx.check(x.full[:len(got)] == got, '%s: the file unpacks to something that is no '
                  'prefix of original plus new content' % what, got=len(got))
        ctx.check(gen.same_json(meta, f.meta['value'] if f.meta else None),
                  what + ': other metadata')


def case(ctx, kind, arg):
    globals()['case_' + kind](ctx)


def case_trace(ctx):
    rng = ctx.rng
    x = File(ctx)
    o = fpmon.Rec(x.img)
    ctx.must('append of %d' % len(x.piece), append_fp, o, io.BytesIO(x.piece), len(x.piece),
             x.args(rng))
    ws = o.writes()
    ctx.event('writes_recorded', len(ws))
    img = x.img
    some = set(rng.sample(range(len(ws)), min(len(ws), 25)) + list(range(len(ws)))[-4:] +
               list(range(len(ws)))[:4])
    for i, w in enumerate(ws):
        header = w[0] == 'write' and w[1] == 0
        what = 'append of %d bytes stopped %%s write %d of %d' % (len(x.piece), i, len(ws))
        if i in some and w[0] == 'write' and len(w[2]) > 1 and w[1] >= 32:
            n = len(w[2])
            for c in sorted(set(rng.randrange(1, n) for _ in range(4)) | {n - 1}):
                ctx.event('torn')
                judge(ctx, x, fpmon.apply(img, w, c), what % ('within (%d bytes)' % c))
        img = fpmon.apply(img, w)
        if i in some:
            judge(ctx, x, img, what % 'after')
            if 1 < i < len(ws) - 2:
                ctx.event('middle_of_new_chunks')
            if w[0] == 'write' and 32 <= w[1] < x.f.first:
                ctx.event('offsets_written')
        ctx.nontrivial(len(x.img), len(x.piece), x.spec, i)
    ctx.check(img == o.getvalue(), 'recorded writes do not add up')
    ctx.sample(dict(ctx.note, piece=len(x.piece), writes=len(ws)))


def case_error(ctx):
    """An operation fails: what the error handling leaves."""
    rng = ctx.rng
    x = File(ctx)
    o, n = fpmon.Rec(x.img), fpmon.Rec(x.piece)
    a = x.args(rng)
    ctx.must('append', append_fp, o, n, len(x.piece), a)
    for side, kinds in ((0, ('write',)), (0, ('seek',)), (0, ('tell',)), (1, ('read',)),
                        (0, ('read',))):
        for p in points(rng, count((o, n)[side].trace, kinds), 8):
            amount = True
            if kinds == ('write',) and p and rng.random() < 0.5:
                amount = rng.randrange(0, 60)
                # never tear the header
                w = [t for t in o.trace if t[0] == 'write'][p]
                if w[1] == 0:
                    amount = True
            elif rng.random() < 0.3:
                amount = fpmon.error(rng)
            fault = rng.choice([fpmon.nth, fpmon.once])(kinds, p, amount)
            o2 = fpmon.Rec(x.img, fault if side == 0 else None)
            n2 = fpmon.Rec(x.piece, fault if side == 1 else None)
            surfaced(ctx, 'append with %s %d failing' % (kinds[0], p), amount,
                     append_fp, o2, n2, len(x.piece), a)
            ctx.event('error_images')
            judge(ctx, x, o2.getvalue(), 'append with %s %d failing' % (kinds[0], p))
            ctx.nontrivial(len(x.img), len(x.piece), x.spec, kinds, p)


def case_kill(ctx):
    """The process disappears while it compresses something."""
    rng = ctx.rng
    x = File(ctx, big=rng.random() < 0.6)
    path, new = ctx.path('a.blp'), ops.write(ctx.path('new'), x.piece)
    ops.write(path, x.img)
    use_cli = rng.random() < 0.25
    a = x.args(rng)

    def run(at):
        real = blosc.compress
        seen = [0]

        def stop(*k, **kk):
            if seen[0] == at:
                os._exit(9)
            seen[0] += 1
            return real(*k, **kk)
        blosc.compress = stop
        if use_cli:
            import sys
            from bloscpack import cli as c
            sys.argv = ['blpk', 'append', path, new]
            c.main()
        else:
            append(path, new, a)
        return 0
    rc = wait(child(lambda: run(-1)))
    ctx.check(rc == 0, 'append to a real file failed (%d)' % rc)
    judge(ctx, x, ops.read(path), 'append')
    ctx.event('disk_append')
    for at in sorted(set([0, rng.randrange(x.new + 1), x.new])):
        ops.write(path, x.img)
        if wait(child(lambda: run(at))) == 0:
            ctx.event('kill_missed')
            continue
        img = ops.read(path)
        ctx.event('killed')
        if use_cli:
            ctx.event('cli_killed')
        if img != x.img:
            ctx.event('killed_midway')
        judge(ctx, x, img, 'append killed at chunk %d of %d' % (at, x.new + 1))
        ctx.nontrivial('kill', len(x.img), len(x.piece), at)


def case_timed(ctx):
    rng = ctx.rng
    x = File(ctx, big=True)
    path, new = ctx.path('a.blp'), ops.write(ctx.path('new'), x.piece)
    ops.write(path, x.img)
    t0 = time.time()
    ctx.check(wait(child(lambda: append(path, new) and 0)) == 0, 'append failed')
    total = time.time() - t0
    for _ in range(4):
        ops.write(path, x.img)
        pid = child(lambda: append(path, new) and 0)
        time.sleep(total * rng.random())
        os.kill(pid, signal.SIGKILL)
        if wait(pid) == -9:
            ctx.event('killed')
            judge(ctx, x, ops.read(path), 'append killed by a signal')
