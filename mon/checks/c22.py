"""C22: chunking arithmetic and limits are exact for every size."""
import fractions
import io
import os

import blosc
import bloscpack as bp
from bloscpack import log
from bloscpack.abstract_io import CompressedSink, pack
from bloscpack.args import BloscpackArgs, _handle_max_apps, calculate_nchunks
from bloscpack.memory_io import PlainMemorySource
from bloscpack.pretty import pretty_size, reverse_pretty

from .. import cli, gen, opkit, ops, ref

RULE = ('a case judges a batch of chunkings, size strings or reservations, or the header of one '
        'packed file or of one pack whose sink only records the header (so that any number of '
        'chunks is possible); evaluations counts judged results; distinct by values')
ASSUMPTIONS = ['size strings below 4T with at most three decimals are judged (others are subject '
               'to floating point rounding)']
REQUIRE = {'chunkings': 20000, 'chunkings_refused': 4000, 'beyond_64_bit': 500,
           'size_strings': 3000, 'bad_strings': 500, 'reservations': 12000,
           'reservations_refused': 3000, 'clipped': 1500, 'callables': 5000, 'headers': 150,
           'recorded': 1000, 'cli': 40}
MEM_LIMIT = 0

MAXC = (1 << 63) - 1
MAXB = ref.MAXBUF
MULT = {'B': 1, 'K': 1 << 10, 'M': 1 << 20, 'G': 1 << 30, 'T': 1 << 40}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 120}[tier]
    return ([('chunks', n) for n in range(60 * q)] + [('strings', n) for n in range(30 * q)] +
            [('apps', n) for n in range(60 * q)] + [('recorded', n) for n in range(60 * q)] +
            [('header', n) for n in range(300 * q)] + [('cli', n) for n in range(50 * q)] +
            ([('huge', n) for n in range(2)] if tier == 'thorough' else []))


def case(ctx, kind, arg):
    ctx.note = {'kind': kind}
    if kind in ('chunks', 'strings', 'apps', 'recorded') and ctx.rng.random() < 0.15:
        # the same has to hold whatever is logged
        log.LEVEL = ctx.rng.choice([log.VERBOSE, log.DEBUG])
    globals()['case_' + kind](ctx)
    ctx.sample(ctx.note)


def cleanup(ctx):
    log.LEVEL = log.NORMAL


def near(rng, *marks):
    """Values around powers of two and limits."""
    k = rng.random()
    if k < 0.5:
        return rng.choice(marks) + rng.choice([-2, -1, 0, 0, 0, 1, 2])
    if k < 0.8:
        return (1 << rng.randrange(0, 70)) + rng.choice([-1, 0, 1])
    return rng.randrange(0, 1 << rng.randrange(1, 80))


def chunk_size(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice([1, 2, 3, MAXB, MAXB - 1, 1 << 20, 0, -1, -2, MAXB + 1, 1 << 31,
                           1 << 32, -(1 << 31), 1 << 64])
    if k < 0.6:
        return rng.randrange(1, 1 << rng.randrange(1, 32))
    return near(rng, 1 << 10, 1 << 16, 1 << 20, 1 << 30, MAXB)


def text_of(rng):
    """(string, exact value)"""
    suf = rng.choice('BKMGT')
    whole = rng.choice([0, 1, 2, 3, 7, 10, 64, 1023, 1024, rng.randrange(3000),
                        rng.randrange(1 << 31)])
    dec = rng.choice([0, 0, 0, 1, 2, 3])
    frac = rng.choice([5, 25, 75, 125, 5, rng.randrange(10 ** dec)]) % 10 ** dec
    s = '%d' % whole
    if dec:
        s += '.%0*d' % (dec, frac)
    v = (fractions.Fraction(frac, 10 ** dec) + whole) * MULT[suf] // 1
    # larger ones are subject to rounding
    return (s + suf, v) if v < 1 << 42 else text_of(rng)


BAD = ['', 'x', '1Q', 'K', '1.2.3K', '--', 'M1', '1k', '1Ki', '1KB ', 'maxi', '0x10K', ',K',
       '1,5K', 'oneM', ' ', 'B', '.', '-', '1/2K', 'infM', 'nanK', '10', '-5', '1K1']


def judge_chunks(ctx, what, size, c, want_refused, r):
    """r: outcome; c: the requested chunk size as a number."""
    ctx.event('evaluations')
    if want_refused:
        ctx.event('chunkings_refused')
        ctx.check(r[0] == 'exc', '%s was not refused but became %r' % (what, r[1]))
        return
    ctx.event('chunkings')
    ctx.check(r[0] == 'ok', '%s was refused: %r' % (what, r[1:]))
    r = r[1]
    ctx.check(isinstance(r, tuple) and len(r) == 3 and
              all(isinstance(v, int) and not isinstance(v, bool) for v in r),
              '%s became %r' % (what, r))
    n, ch, last = r
    if size == 0:
        ctx.check((n, ch, last) == (1, 0, 0), '%s became %r' % (what, r))
        return
    if size <= c:
        want = (1, size, size)
    else:
        n_ = -(-size // c)
        want = (n_, c, size - (n_ - 1) * c)
    ctx.check((n - 1) * ch + last == size, '%s covers %d bytes' % (what, (n - 1) * ch + last))
    ctx.check(r == want, '%s became %r instead of %r' % (what, r, want))


def case_chunks(ctx):
    rng = ctx.rng
    for _ in range(700):
        c = chunk_size(rng)
        k = rng.random()
        if k < 0.35 and 0 < c:
            size = c * rng.choice([1, 2, 3, 10, rng.randrange(1, 1 << rng.randrange(1, 64)),
                                   MAXC, MAXC + 1, MAXC - 1]) + rng.choice([-1, 0, 1])
        elif k < 0.45:
            size = rng.choice([0, 0, 1, -1, -5, MAXC, MAXC + 1, 1 << 64, -(1 << 63)])
        else:
            size = near(rng, 1 << 20, MAXB, 1 << 31, 1 << 32, 1 << 63, 1 << 64)
        size = max(size, -10)
        s, v = (None, c)
        if rng.random() < 0.1:
            s, v = text_of(rng)
        elif rng.random() < 0.03:
            s, v = None, None       # the default, one megabyte
        what = 'chunking %d bytes by %r' % (size, s or v)
        if v is None:
            r = ctx.outcome(calculate_nchunks, size)
            v = 1 << 20
        else:
            r = ctx.outcome(calculate_nchunks, size, s if s else c)
        if size == 0:
            bad = False
            if r[0] == 'exc' and not 1 <= v <= MAXB:
                continue        # refusing is fine as well
        else:
            bad = size < 0 or not 1 <= v <= MAXB or -(-size // min(v, size)) > MAXC
        judge_chunks(ctx, what, size, v, bad, r)
        if size > 1 << 63:
            ctx.event('beyond_64_bit')
        ctx.nontrivial(size, s or c)
    for c in (1.0, 1.5, None, b'1M', [], {}, float('nan'), 1j):
        r = ctx.outcome(calculate_nchunks, rng.choice([1, 1000, 1 << 40]), c)
        ctx.check(r[0] == 'exc', 'chunk size %r became %r' % (c, r))
        ctx.event('chunkings_refused')


def case_strings(ctx):
    rng = ctx.rng
    for _ in range(150):
        s, v = text_of(rng)
        r = ctx.outcome(reverse_pretty, s)
        ctx.check(r == ('ok', v) and type(r[1]) is int, 'size string %r means %r, not %d' %
                  (s, r[1:], v))
        ctx.event('size_strings')
        ctx.event('evaluations')
        # what is printed for whole multiples can be given back
        suf = rng.choice('BKMGT')
        v = rng.randrange(1, 1024) * MULT[suf]
        t = pretty_size(v)
        r = ctx.outcome(reverse_pretty, t)
        ctx.check(r == ('ok', v), '%d prints as %r, which means %r' % (v, t, r[1:]))
        ctx.event('size_strings')
        ctx.nontrivial(s)
    for s in BAD:
        r = ctx.outcome(calculate_nchunks, 1 << 40, s)
        ctx.check(r[0] == 'exc', 'chunk size %r became %r' % (s, r))
        ctx.event('bad_strings')
        ctx.event('evaluations')


def reservation(ctx):
    """(what to pass, wanted value given nchunks or None for a refusal, text, seen)."""
    rng = ctx.rng
    k = rng.random()
    seen = []
    if k < 0.4:
        m = rng.choice([0, 1, 10, MAXC, MAXC - 1, MAXC + 1, -1, -2, 1 << 64, near(rng, MAXC),
                        rng.randrange(1 << rng.randrange(1, 64))])
        return m, (lambda n: None if not 0 <= m <= MAXC else min(m, MAXC - n)), 'int %d' % m, seen
    if k < 0.85:
        a, b = rng.choice([0, 1, 2, 10, 1 << 32, MAXC, rng.randrange(1 << 40)]), \
            rng.choice([0, 0, 1, -1, -10, 5, MAXC, 1 << 70])

        def f(n):
            seen.append(n)
            return a * n + b
        # any callable will do
        cls = type('C', (), {'__call__': lambda self, n: f(n)})
        g = rng.choice([f, cls(), lambda n: f(n)])
        return g, (lambda n: None if a * n + b < 0 else min(a * n + b, MAXC - n)), \
            'n -> %d * n + %d' % (a, b), seen
    if k < 0.93:
        v = rng.choice([1.0, 2.5, None, 'x', '5', [], float('inf')])

        def g(n):
            seen.append(n)
            return v
        return g, (lambda n: None), 'n -> %r' % v, seen
    v = rng.choice([1.0, None, '5', [], 2.5, {}, b'1'])
    return v, (lambda n: None), repr(v), seen


def case_apps(ctx):
    rng = ctx.rng
    for _ in range(500):
        m, want, text, seen = reservation(ctx)
        n = rng.choice([-1, 0, 1, 2, 10, MAXC, MAXC - 1, -2, MAXC + 1, near(rng, MAXC, 1 << 32)])
        offsets = rng.choice([True, True, True, False])
        what = 'reservation %s for %d chunks %s offsets' % (text, n,
                                                            'with' if offsets else 'without')
        r = ctx.outcome(_handle_max_apps, offsets, n, m)
        ctx.event('evaluations')
        if not -1 <= n <= MAXC:
            ctx.check(r[0] == 'exc', '%s was not refused but became %r' % (what, r))
            ctx.event('reservations_refused')
            continue
        w = want(n) if offsets and n >= 0 else 0
        if not offsets or n < 0:
            # an invalid value may be refused, but never be taken
            if r[0] == 'exc' and want(max(n, 0)) is None:
                ctx.event('reservations_refused')
                continue
        if w is None:
            ctx.check(r[0] == 'exc', '%s was not refused but became %r' % (what, r))
            ctx.event('reservations_refused')
            continue
        ctx.check(r == ('ok', w), '%s became %r instead of %r' % (what, r[1:], w))
        ctx.check(all(x == n for x in seen), 'the callable was called with %r for %d chunks' %
                  (seen, n))
        ctx.event('reservations')
        ctx.event('callables', callable(m))
        ctx.event('clipped', offsets and n >= 0 and w == MAXC - n)
        ctx.nontrivial(n, offsets, text)


class Recorder(CompressedSink):
    """A sink that keeps the header it is given."""
    header = None

    def configure(self, blosc_args, bloscpack_header):
        self.header = bloscpack_header
        self.raw = bloscpack_header.encode()

    def write_bloscpack_header(self):
        pass

    def write_metadata(self, metadata, metadata_args):
        pass

    def init_offsets(self):
        pass

    def put(self, i, compressed):
        pass


def case_recorded(ctx):
    """Headers for any number of chunks."""
    rng = ctx.rng
    for _ in range(40):
        m, want, text, seen = reservation(ctx)
        c = rng.choice([1, 10, 1 << 20, MAXB, rng.randrange(1, MAXB)])
        n = rng.choice([1, 2, 3, 10, MAXC, MAXC - 1, MAXC // 2, rng.randrange(1, MAXC)])
        size = (n - 1) * c + rng.choice([1, c, max(1, c // 2)])
        offsets = rng.random() < 0.8
        checksum = rng.choice(gen.CHECKSUMS)
        what = 'packing %d bytes by %d with reservation %s%s' % (
            size, c, text, '' if offsets else ' and without offsets')
        triple = ctx.must(what, calculate_nchunks, size, c)
        sink = Recorder()
        args = BloscpackArgs(offsets=offsets, checksum=checksum, max_app_chunks=m)
        r = ctx.outcome(pack, PlainMemorySource([]), sink, *triple, bloscpack_args=args)
        ctx.event('evaluations')
        w = want(triple[0]) if offsets else 0
        if w is None:
            ctx.check(r[0] == 'exc', what + ' was not refused')
            ctx.check(sink.header is None, what + ' was refused only after it had begun')
            continue
        if r[0] == 'exc' and not offsets and want(triple[0]) is None:
            continue
        ctx.check(r[0] == 'ok', what + ' was refused: %r' % (r[1:],))
        h = ref.parse_header(sink.raw)
        cs, last, nch, app = (h[x] for x in ('chunk_size', 'last_chunk', 'nchunks', 'max_app'))
        ctx.check((nch, cs, last) == triple, '%s recorded %r' % (what, h))
        ctx.check(app == w, '%s recorded a reservation of %d instead of %d' % (what, app, w))
        ctx.check(0 <= app <= MAXC - nch, what + ' recorded an unrepresentable reservation')
        ctx.event('recorded')
        ctx.nontrivial(size, c, text, offsets)


def case_header(ctx):
    """Headers of real files, with size strings."""
    rng = ctx.rng
    route = rng.choice(['pack_file_to_file', 'pack_bytes_to_file', 'pack_bytes_to_bytes'])
    k = rng.random()
    size = rng.choice([0, 1, 5, 1000, 1023, 1024, 1025, 2048, 3000, 4096,
                       rng.randrange(1, 9000)])
    if k < 0.5:
        v = rng.choice([1024, 512, 1, 10, 1536, 100, 256, 2560, rng.randrange(1, 3000)])
        s = rng.choice(['%dB' % v] + (['%.3fK' % (v / 1024.0)] if v % 128 == 0 else []) +
                       (['%dK' % (v // 1024)] if v % 1024 == 0 else []))
    elif k < 0.7:
        s, v = rng.choice([('1M', 1 << 20), ('0.5M', 1 << 19), ('1G', 1 << 30), ('2K', 2048),
                           ('1.5G', 3 << 29), ('0.001G', (1 << 30) // 1000)])
    elif k < 0.8:
        s, v = rng.choice([('2G', None), ('3G', None), ('1T', None), ('0K', None), ('0.0B', None),
                           ('0.9B', None), ('-1K', None), ('1', None), ('x', None)])
    elif k < 0.9:
        s = v = rng.choice([MAXB, 1 << 30, size or 1, size + 1, max(1, size - 1)])
    else:
        s, v = rng.choice([0, -1, MAXB + 1, 1 << 31, 1 << 40]), None
    if v and size // v > 2000:
        size = v * 2000 - 1
    data = gen.data(rng, size)
    b = gen.bloscpack_args(rng)
    ctx.note.update(route=route, size=size, chunk=s, bpack=b)
    kw = dict(chunk_size=s, bloscpack_args=ops.B(b))
    i, o = ctx.path('i'), ctx.path('o')
    if route == 'pack_bytes_to_bytes':
        def fn():
            return bp.pack_bytes_to_bytes(data, **kw)
    elif route == 'pack_bytes_to_file':
        def fn():
            bp.pack_bytes_to_file(data, o, **kw)
            return ops.read(o)
    else:
        ops.write(i, data)

        def fn():
            bp.pack_file_to_file(i, o, **kw)
            return ops.read(o)
    what = '%s of %d bytes by %r' % (route, size, s)
    r = ctx.outcome(fn)
    ctx.event('evaluations')
    if v is None:
        if size:
            ctx.check(r[0] == 'exc', what + ' was not refused')
            return
        if r[0] == 'exc':
            return
        v = 1
    ctx.check(r[0] == 'ok', '%s was refused: %r' % (what, r[1:]))
    f = ref.parse(r[1])
    n = 1 if not size else -(-size // min(v, size))
    want = (n, min(v, size), size - (n - 1) * min(v, size))
    got = (f.h['nchunks'], f.h['chunk_size'], f.h['last_chunk'])
    ctx.check(got == want, '%s recorded %r instead of %r' % (what, got, want))
    app = gen.max_app_expected(b['max_app'], n, b['offsets'])
    ctx.check(f.h['max_app'] == app, '%s recorded a reservation of %d instead of %d' %
              (what, f.h['max_app'], app))
    sizes = [c['nbytes'] for c in f.chunks]
    ctx.check(sizes == [want[1]] * (n - 1) + [want[2]], what + ' has chunks of other sizes',
              sizes=sizes[:20])
    ctx.event('headers')
    ctx.nontrivial(route, size, s, b)


def case_cli(ctx):
    rng = ctx.rng
    size = rng.choice([0, 1, 1000, 1024, 5000, 1 << 20, (1 << 20) + 1, 3 << 20])
    s, v = rng.choice([('1K', 1024), ('1.5K', 1536), ('max', MAXB), ('100B', 100), ('512', 512),
                       (str(MAXB), MAXB), ('1M', 1 << 20), ('0.25M', 1 << 18), ('1G', 1 << 30),
                       (None, 1 << 20), ('2147483632', None), ('2G', None), ('0', None),
                       ('-1', None), ('0.4B', None), ('1T', None), ('x', None), ('', None)])
    if v and size // v > 5000:
        size = v * 4999 + 1
    with open(ctx.path('in'), 'wb') as fp:
        fp.truncate(size)
    args = ['-n', '1', 'c'] + (['--chunk-size=' + s] if s is not None else []) + ['in']
    ctx.note['command'] = args
    r = cli.run(rng, args, ctx.dir)
    ctx.event('evaluations')
    ctx.event('cli')
    out = ctx.path('in.blp')
    if v is None:
        ctx.check(r.rc not in (0, 99) and not os.path.exists(out),
                  'blpk --chunk-size=%s was not refused' % s, result=repr(r))
        return
    ctx.check(r.rc == 0, 'blpk --chunk-size=%s failed: %r' % (s, r))
    f = ref.parse(ops.read(out), decode=False)
    n = 1 if not size else -(-size // min(v, size))
    want = (n, min(v, size), size - (n - 1) * min(v, size))
    got = (f.h['nchunks'], f.h['chunk_size'], f.h['last_chunk'])
    ctx.check(got == want, 'blpk --chunk-size=%s of %d bytes recorded %r instead of %r' %
              (s, size, got, want))
    ctx.nontrivial(size, s)


def case_huge(ctx):
    """Beyond two gigabytes with the largest chunk size."""
    rng = ctx.rng
    v = MAXB if ctx.rng.random() < 0.5 else MAXB - 7
    size = v + rng.choice([1, 5, 1000])
    i, o, back = ctx.path('i'), ctx.path('o'), ctx.path('b')
    with open(i, 'wb') as fp:
        fp.truncate(size)
        fp.seek(v - 1)
        fp.write(b'\1\2')
    bp.pack_file_to_file(i, o, chunk_size=v)
    f = ref.parse(ops.read(o), decode=False)
    got = (f.h['nchunks'], f.h['chunk_size'], f.h['last_chunk'])
    ctx.check(got == (2, v, size - v), 'recorded %r' % (got,))
    bp.unpack_file_from_file(o, back)
    ctx.check(os.path.getsize(back) == size, 'unpacked to %d bytes' % os.path.getsize(back))
    with open(back, 'rb') as fp:
        fp.seek(v - 1)
        ctx.check(fp.read(2) == b'\1\2', 'unpacked to other bytes')
    ctx.event('huge')
    ctx.event('evaluations')
