"""C30: an interrupted metadata update damages nothing else and is noticed."""
import io
import os

from bloscpack.append import _rewrite_metadata_fp
from bloscpack.file_io import _read_beginning

from .. import fpmon, gen, hist, ops, ref
from .c10 import new_value, settings, stored_size
from .c11 import count, points, surfaced

RULE = ('an evaluation is one crash image of a metadata update (file after the first k writes, the '
        'last one whole or torn at a byte, or after an injected error) given to the byte '
        'comparison and the readers; distinct by (file, value, settings, crash point)')
ASSUMPTIONS = ['file contents after a crash are a prefix of the writes in the order issued',
               'a mixture of old and new text that happens to have the stored adler32 is not judged']
REQUIRE = {'crash_images': 33000, 'torn': 22000, 'error_images': 3000, 'read': 12000, 'refused': 27000,
           'old_metadata': 11000, 'new_metadata': 600, 'no_checksum': 2000, 'updates': 1300,
           'same_length': 50, 'other_writes': 1000000}

READ = [u for u in ops.UNPACK_IMG if 'file' not in u.__name__]


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    return [('trace', n) for n in range(900 * q)] + [('error', n) for n in range(400 * q)]


class Update(object):
    """A file with metadata, perhaps with a history, and an update that is possible."""

    def __init__(self, ctx):
        rng = ctx.rng
        while True:
            img = hist.start(ctx)[0] if rng.random() < 0.7 else hist.foreign_start(ctx)[0]
            if ref.parse(img).meta:
                break
        t = hist.Mem(ctx, img)
        m = hist.Model(img, unknown_last=True)
        for _ in range(rng.choice([0, 0, 1, 2])):
            size = hist.piece_size(rng, m)
            if size and m.fits(size):
                p = gen.data(rng, size)
                ctx.must('append', t.append, p, hist.blosc_spec(rng), rng)
                m.applied(p)
        self.img = t.image()
        while True:
            f = self.f = ref.parse(self.img)
            self.old = f.meta['value']
            self.value = new_value(ctx, f.meta['max_size'], self.old)
            self.k, codec, level, ck = settings(ctx, f.meta)
            size, _ = stored_size(self.value, codec, level)
            if self.value != self.old and size <= f.meta['max_size'] and \
                    ref.DIGEST_SIZE[ck] == ref.DIGEST_SIZE[f.meta['checksum']]:
                break
            if rng.random() < 0.02:
                # no room for anything but numbers
                self.value, self.k = rng.randrange(10), {}
                if self.value != self.old:
                    break
        ctx.note = {'old': repr(self.old)[:200], 'new': repr(self.value)[:200], 'settings': self.k,
                    'checksum': f.meta['checksum'], 'room': f.meta['max_size']}

    def run(self, fp):
        fp.on = False
        fp.seek(32)
        fp.on = True
        _rewrite_metadata_fp(fp, self.value, **self.k)


def judge(ctx, x, img, what):
    f = x.f
    ctx.event('crash_images')
    ctx.event('evaluations')
    ctx.check(len(img) == len(x.img) and img[:32] == x.img[:32] and
              img[f.offsets_pos:] == x.img[f.offsets_pos:],
              what + ' changed bytes outside the metadata section')
    ctx.check(img[48:52] == x.img[48:52], what + ' changed the reserved size')
    if f.meta['checksum'] == 'None':
        ctx.event('no_checksum')
        return
    rng = ctx.rng
    us = [rng.choice(READ + [beginning] * 2)]
    if rng.random() < 0.05:
        us = READ + [ops.u_file_file, beginning]
    for u in us:
        r = ctx.outcome(u, ctx.dir, ops.Img(img))
        if r[0] != 'ok':
            ctx.event('refused')
            continue
        data, meta = r[1]
        ctx.event('read')
        if gen.same_json(meta, x.old):
            ctx.event('old_metadata')
        elif gen.same_json(meta, x.value):
            ctx.event('new_metadata')
        elif f.meta['checksum'] == 'adler32' or x.k.get('checksum') == 'adler32':
            ctx.event('collisions')
        else:
            ctx.fail('%s: metadata read back are neither the old nor the new ones' % what, got=meta)
        ctx.check(data is None or data == f.data, what + ': the file unpacks to other data')


def beginning(d, im):
    return None, _read_beginning(io.BytesIO(im.bytes if hasattr(im, 'bytes') else im.img))[1]


def case(ctx, kind, arg):
    globals()['case_' + kind](ctx)


def case_trace(ctx):
    rng = ctx.rng
    x = Update(ctx)
    o = fpmon.Rec(x.img)
    ctx.must('update', x.run, o)
    ws = o.writes()
    cur = bytearray(x.img)
    n = len(ws)
    some = set(range(min(n, 12))) | set(range(max(0, n - 6), n)) | \
        set(rng.randrange(n) for _ in range(10))
    for i, w in enumerate(ws):
        what = 'metadata update stopped %%s write %d of %d' % (i, n)
        if i not in some:
            # one of very many; most write the filling byte by byte
            end = w[1] + len(w[2]) if w[0] == 'write' else 0
            ctx.check(end and (bytes(cur[w[1]:end]) == w[2] or
                               32 <= w[1] and end <= x.f.offsets_pos),
                      (what + ' changed bytes outside the metadata section') % 'after')
            cur[w[1]:end] = w[2]
            ctx.event('other_writes')
            continue
        img = bytes(cur)
        if w[0] == 'write' and len(w[2]) > 1:
            size = len(w[2])
            cuts = range(1, size) if size <= 40 else \
                set(rng.randrange(1, size) for _ in range(12)) | {1, size - 1}
            for c in sorted(cuts):
                ctx.event('torn')
                judge(ctx, x, fpmon.apply(img, w, c), what % ('within (%d bytes)' % c))
        cur = bytearray(fpmon.apply(img, w))
        judge(ctx, x, bytes(cur), what % 'after')
        ctx.nontrivial(len(x.img), repr(x.value), x.k, i)
    ctx.check(bytes(cur) == o.getvalue(), 'recorded writes do not add up')
    ctx.event('updates')
    ctx.sample(dict(ctx.note, writes=n))


def case_error(ctx):
    rng = ctx.rng
    x = Update(ctx)
    o = fpmon.Rec(x.img)
    ctx.must('update', x.run, o)
    for kinds in (('write',), ('seek',), ('tell',), ('read',)):
        for p in points(rng, count(o.trace, kinds), 6):
            amount = True
            if kinds == ('write',) and rng.random() < 0.5:
                amount = rng.randrange(0, 60)
            elif rng.random() < 0.3:
                amount = fpmon.error(rng)
            fault = rng.choice([fpmon.nth, fpmon.once])(kinds, p, amount)
            o2 = fpmon.Rec(x.img, fault)
            what = 'metadata update with %s %d failing' % (kinds[0], p)
            surfaced(ctx, what, amount, x.run, o2)
            ctx.event('error_images')
            judge(ctx, x, o2.getvalue(), what)
            ctx.nontrivial(len(x.img), repr(x.value), x.k, kinds, p)
    ctx.event('updates')
