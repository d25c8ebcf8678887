"""A file under a history of appends and metadata updates, with its model."""
import io
import os

import blosc
from bloscpack.append import append, append_fp, _rewrite_metadata_fp
from bloscpack.args import BloscArgs

from . import cli, gen, ops, ref

DEF = dict(clevel=7, shuffle=True, cname='blosclz')


def blosc_spec(rng):
    """None, or settings of which some are left open (None)."""
    if rng.random() < 0.3:
        return None
    a = gen.blosc_args(rng)
    a['clevel'] = rng.randrange(10)
    if rng.random() < 0.3:
        for k in rng.sample(sorted(a), rng.randrange(1, 5)):
            a[k] = None
    return a


def effective(spec, typesize):
    a = dict(DEF, typesize=typesize)
    for k, v in (spec or {}).items():
        if v is not None:
            a[k] = v
    return a


def blosc_value(rng, spec):
    if spec is None:
        return None
    return dict(spec) if rng.random() < 0.4 else BloscArgs(**spec)


class Model(object):
    """What the file has to contain."""

    def __init__(self, img, unknown_last=False):
        f = ref.parse(img) if unknown_last else ref.conform(img, appended=True)
        self.data, self.chunk = f.data, f.h['chunk_size']
        self.last, self.n, self.app = f.chunks[-1]['nbytes'], f.h['nchunks'], f.h['max_app']
        self.total = self.n + self.app
        self.meta = f.meta['value'] if f.meta else None
        self.h = f.h
        self.section = img[32:f.offsets_pos]
        self.chunks = [c['raw'] for c in f.chunks]
        self.pos = [c['pos'] for c in f.chunks]

    def needs(self, size):
        """New chunks an append of this size needs; None: impossible."""
        if self.chunk == 0:
            return 0 if size == 0 else None
        over = size - (self.chunk - self.last)
        return 0 if over <= 0 else -(-over // self.chunk)

    def fits(self, size):
        n = self.needs(size)
        return n is not None and n <= self.app

    def applied(self, piece):
        n = self.needs(len(piece))
        self.data += piece
        self.n += n
        self.app -= n
        if n:
            self.last = len(self.data) - self.chunk * (self.n - 1)
        else:
            self.last += len(piece)


def verify(ctx, img, m, what, spec=None, old_n=None, piece=b''):
    """Everything C08 says about the file after a step; updates the chunk list."""
    try:
        f = ref.conform(img, appended=True)
    except ref.Bad as e:
        ctx.fail('%s left a file that does not follow the format: %s' % (what, e))
    h = f.h
    ctx.check(f.data == m.data, '%s: content is not the original followed by the pieces'
              % what, got=len(f.data), want=len(m.data))
    ctx.check((h['nchunks'], h['max_app'], h['last_chunk']) == (m.n, m.app, m.last),
              '%s: header says nchunks=%d max_app=%d last_chunk=%d, should be %d, %d, %d' %
              (what, h['nchunks'], h['max_app'], h['last_chunk'], m.n, m.app, m.last))
    ctx.check(h['nchunks'] + h['max_app'] == m.total, 'chunks plus reservation changed')
    for k in ('chunk_size', 'checksum', 'typesize', 'metadata', 'offsets', 'version'):
        ctx.check(h[k] == m.h[k], '%s changed %s in the header: %s' % (what, k, h[k]))
    ctx.check(img[32:f.offsets_pos] == m.section, '%s changed the metadata section' % what)
    if old_n is not None:
        keep = old_n - 1
        ctx.check([c['raw'] for c in f.chunks[:keep]] == m.chunks[:keep] and
                  [c['pos'] for c in f.chunks[:keep + 1]] == m.pos[:keep + 1],
                  '%s changed chunks before the last one' % what)
        if spec is not None and piece:
            for i, c in enumerate(f.chunks[keep:]):
                want = ops.compress_direct(c['data'], spec)
                ctx.check(c['raw'] == want, '%s: chunk %d is not compressed with the '
                          'requested settings' % (what, keep + i), settings=spec)
            ctx.event('settings_checked')
    m.chunks = [c['raw'] for c in f.chunks]
    m.pos = [c['pos'] for c in f.chunks]
    return f


class Mem(object):
    """The file lives in memory; append_fp."""
    name = 'append_fp'

    def __init__(self, ctx, img):
        self.fp = io.BytesIO(img)

    def image(self):
        return self.fp.getvalue()

    def append(self, piece, spec, rng):
        self.fp.seek(0)
        lead, tail = b'', b''
        if rng.random() < 0.3:
            lead, tail = rng.randbytes(rng.randrange(5)), rng.randbytes(rng.randrange(9))
        new = io.BytesIO(lead + piece + tail)
        new.seek(len(lead))
        return append_fp(self.fp, new, len(piece), blosc_value(rng, spec))

    def update(self, *a, **k):
        self.fp.seek(32)
        return _rewrite_metadata_fp(self.fp, *a, **k)


class Disk(Mem):
    """Real files; append()."""
    name = 'append'

    def __init__(self, ctx, img):
        self.dir = ctx.dir
        self.path = ops.write(os.path.join(self.dir, 'h.blp'), img)

    def image(self):
        return ops.read(self.path)

    def append(self, piece, spec, rng):
        new = ops.write(os.path.join(self.dir, 'h.new'), piece)
        append(self.path, new, blosc_value(rng, spec))

    def update(self, *a, **k):
        with open(self.path, 'r+b') as fp:
            fp.seek(32)
            return _rewrite_metadata_fp(fp, *a, **k)


class Refused(Exception):
    pass


class Cli(Disk):
    """blpk append; every setting of the command line is given."""
    name = 'blpk append'
    more = []

    def append(self, piece, spec, rng):
        new = ops.write(os.path.join(self.dir, 'h.new'), piece)
        spec = spec or {}
        args = [rng.choice(['append', 'a'])]
        for k, o in (('typesize', '-t'), ('clevel', '-l'), ('cname', '-c')):
            if spec.get(k) is not None:
                args += [o, str(spec[k])]
        if spec.get('shuffle') is False:
            args.append('-s')
        r = cli.run(rng, args + self.more + [self.path, new], self.dir, share=0.01)
        if r.rc < 0:
            raise SystemError('blpk killed by a signal')
        if r.rc:
            raise Refused(repr(r))


def cli_spec(rng):
    """Settings the command line can express (typesize always has a value there)."""
    a = dict(typesize=gen.typesize(rng), clevel=rng.randrange(10),
             shuffle=rng.random() < 0.6, cname=rng.choice(gen.CNAMES))
    for k in ('clevel', 'cname'):
        if rng.random() < 0.3:
            a[k] = None
    return a


def start(ctx, small=True):
    """A packed file with offsets and a reservation."""
    rng = ctx.rng
    bp = gen.bloscpack_args(rng, offsets=True)
    bp['max_app'] = rng.choice([('default', None), ('int', 0), ('int', 1), ('int', 2),
                                ('int', 3), ('int', 5), ('int', 17), ('int', 60),
                                ('mul', 1), ('add', 4)])
    chunk = rng.choice([1, 2, 8, 16, 17, 100, 100, 128, 256, 1000])
    n = rng.choice([1, 1, 2, 3, rng.randrange(1, 9)])
    many = small and rng.random() < 0.03
    if many:
        # many chunks, and room for many more
        chunk, n = rng.choice([1, 2, 7, 17]), rng.choice([40, 120, 260, 400, rng.randrange(40, 400)])
        bp['max_app'] = rng.choice([bp['max_app'], ('int', rng.randrange(100, 700)), ('mul', 2)])
        ctx.event('many_chunks')
    size = max(1, n * chunk - rng.choice([0, 0, 1, chunk // 2, chunk - 1]))
    if rng.random() < 0.05 and not many:
        size = rng.choice([0, 1])
    meta = gen.metadata(rng) if rng.random() < 0.5 else None
    ma = gen.metadata_args(rng) if meta is not None and rng.random() < 0.7 else None
    if ma and ma['max_meta'][0] == 'int':
        ma['max_meta'] = ('int', 3000 if rng.random() < 0.8 else rng.randrange(65000, 200000))
        meta = {'m': rng.randrange(1000)}
    s = ops.spec(chunk, gen.blosc_args(rng), bp, meta, ma)
    data = gen.data(rng, size)
    img = ctx.must('packing', ops.mk, data, s)
    ctx.note = dict(spec=s, size=size)
    return img, data, s


def foreign_start(ctx):
    """A conforming file of another writer: mixed settings per chunk."""
    rng = ctx.rng
    chunk = rng.choice([1, 8, 100, 256])
    n = rng.choice([1, 2, 3, 6])
    if rng.random() < 0.02:
        chunk, n = rng.choice([1, 8, 100]), rng.randrange(40, 300)
        ctx.event('many_chunks')
    last = rng.choice([chunk, max(1, chunk // 2), 1])
    pieces = [gen.data(rng, chunk) for _ in range(n - 1)] + [gen.data(rng, last)]
    comp = [blosc.compress(p, **gen.blosc_args(rng)) for p in pieces]
    app = rng.choice([0, 1, 2, 10, 50])
    unknown = rng.random() < 0.3
    img = ref.build(comp, checksum=rng.choice(gen.CHECKSUMS), max_app=app,
                    typesize=rng.randrange(1, 256), chunk_size=chunk,
                    last_chunk=-1 if unknown else last,
                    meta=rng.choice([None, ref.meta_section(b'{"k":[1,null]}', 14),
                                     ref.meta_section(b'null', 4, max_size=20),
                                     ref.foreign_meta(rng, gen.metadata(rng)),
                                     ref.foreign_meta(rng, gen.metadata(rng))]))
    ctx.note = dict(foreign=True, chunk=chunk, n=n, last=last, app=app, unknown_last=unknown)
    return img, b''.join(pieces), None


def piece_size(rng, m):
    free = max(0, m.chunk - m.last)
    c = max(1, m.chunk)
    if m.app > 90 and m.chunk <= 17 and rng.random() < 0.25:
        return free + c * rng.randrange(60, m.app + 1) + rng.choice([0, 0, 1, -1])
    k = rng.randrange(9)
    if k == 0:
        return 0
    if k == 1:
        return free
    if k == 2:
        return max(0, free + rng.choice([-1, 1]))
    if k == 3:
        return free + c * rng.randrange(0, 4)
    if k == 4:
        return max(0, free + c * rng.randrange(1, 4) + rng.choice([-1, 1]))
    if k == 5:
        return c * rng.randrange(0, 4)
    if k == 6:      # just what is left, or just more
        return min(free + c * m.app + rng.choice([0, 0, 1]), 20000)
    return rng.randrange(0, 3 * c + 2)
