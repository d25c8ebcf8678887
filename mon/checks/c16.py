"""C16: failing commands fail loudly and leave files alone."""
import json
import os
import resource

from .. import cli, gen, ops, ref
from .c15 import blosc_opts, opt, place, size_text

RULE = ('a case is one directory with a fresh valid file on which failing blpk commands of one '
        'kind are tried with random other options; evaluations counts the commands, each judged '
        'by exit status, standard output and byte and time stamps of every file; distinct by '
        'cause, options and damage')
ASSUMPTIONS = ['argparse reports its own errors on standard error, only the failures listed in '
               'the property are expected on standard output']
CAUSES = ['existing', 'missing', 'extension', 'value', 'usage', 'metadata_file', 'damaged',
          'truncated', 'foreign', 'version', 'append', 'space', 'head', 'shrink']
REQUIRE = dict([('cause:' + c, 100) for c in CAUSES], commands=2500, real_process=20, metadata_without_name=10,
               documented=1000, untouched_output=600, partial_output=50)

BIG = ref.MAXBUF


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 30}[tier]
    return ([(c, n) for n in range(26 * q) for c in CAUSES] +
            [('real', n) for n in range(4 * q)])


def snapshot(d):
    out = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if n.startswith('.cli.'):
            continue
        if os.path.isfile(p):
            st = os.stat(p)
            out[n] = (ops.read(p), st.st_mtime_ns, st.st_ino, st.st_mode)
        else:
            out[n] = ('dir', sorted(os.listdir(p)))
    return out


class Bed(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.real = ctx.state.get('real', False)
        rng = ctx.rng
        self.chunk = rng.choice([50, 100, 128, 1000])
        size = max(1, self.chunk * rng.choice([1, 2, 3, 5]) - rng.choice([0, 1, 20]))
        self.data = gen.data(rng, size)
        self.bp = gen.bloscpack_args(rng)
        if self.bp['max_app'][0] == 'default' and rng.random() < 0.5:
            self.bp['max_app'] = ('int', 2)
        self.meta = gen.metadata(rng) if rng.random() < 0.5 else None
        self.s = ops.spec(self.chunk, gen.blosc_args(rng), self.bp, self.meta, None)
        self.img = ctx.must('packing', ops.mk, self.data, self.s)
        self.put('in', self.data)
        self.put('in.blp', self.img)

    def put(self, name, data):
        p = ops.write(os.path.join(self.ctx.dir, name), data)
        os.utime(p, ns=(10 ** 18, 10 ** 18))
        return name

    def drop(self, name):
        p = os.path.join(self.ctx.dir, name)
        if os.path.exists(p):
            os.unlink(p)

    def fails(self, cause, args, documented=False, may_write=(), before=None, sig=None):
        """args has to fail; nothing but may_write is touched."""
        ctx = self.ctx
        snap = snapshot(ctx.dir)
        ctx.note['command'] = args
        if self.real and before is None:
            r = cli.real(args, ctx.dir)
            ctx.event('real_process')
        else:
            r = cli.forked(args, ctx.dir, before=before)
        what = 'blpk %s (%s)' % (' '.join(args), cause)
        ctx.event('commands')
        ctx.event('evaluations')
        ctx.event('cause:' + cause)
        ctx.check(r.rc != 0, what + ' exited 0', result=repr(r))
        ctx.check(0 < r.rc < 126, what + ' was killed', result=repr(r))
        if documented:
            ctx.event('documented')
            lines = r.out.split('\n')
            ctx.check(any(x.startswith('blpk: error: ') for x in lines) and
                      'Traceback' not in r.err,
                      what + ' is not reported as "blpk: error:" on standard output',
                      result=repr(r))
        now = snapshot(ctx.dir)
        for n in set(now) | set(snap):
            if n in may_write:
                if now.get(n) != snap.get(n):
                    ctx.event('partial_output')
                continue
            ctx.check(now.get(n) == snap.get(n), '%s changed, created or deleted %r' %
                      (what, n), before=snap.get(n), after=now.get(n), result=repr(r))
        if 'out' in snap and 'out' not in may_write:
            ctx.event('untouched_output')
        ctx.nontrivial(cause, sig if sig is not None else args, args[:1])
        return r


# --------------------------------------------------------- random commands

def globs(ctx, force=None):
    rng = ctx.rng
    g = [opt(rng, '-n', '--nthreads', '1')] if rng.random() < 0.9 else []
    if force or (force is None and rng.random() < 0.4):
        g.append([rng.choice(['-f', '--force'])])
    if rng.random() < 0.15:
        g.append([rng.choice(['-v', '-d', '--verbose', '--debug'])])
    rng.shuffle(g)
    return sum(g, [])


def c_groups(ctx):
    rng = ctx.rng
    _, g = blosc_opts(ctx)
    if rng.random() < 0.4:
        g.append(opt(rng, '-k', '--checksum', rng.choice(gen.CHECKSUMS)))
    if rng.random() < 0.2:
        g.append(opt(rng, '-o', '--no-offsets'))
    if rng.random() < 0.4:
        g.append(opt(rng, '-z', '--chunk-size', size_text(rng, rng.choice([10, 100, 1024]))))
    return g


def sub(rng, x):
    return rng.choice({'c': ['compress', 'c'], 'd': ['decompress', 'd'],
                       'a': ['append', 'a'], 'i': ['info', 'i']}[x])


def groups_for(ctx, x):
    return {'c': c_groups, 'a': lambda c: blosc_opts(c)[1]}.get(x, lambda c: [])(ctx)


def cmd(ctx, x, pos, extra=(), force=None):
    return globs(ctx, force) + place(ctx.rng, sub(ctx.rng, x),
                                     groups_for(ctx, x) + list(extra), list(pos))


def with_out(ctx, b, default):
    """Positional output and the file that is the output."""
    if ctx.rng.random() < 0.5:
        return ['out'], 'out'
    return [], default


# ------------------------------------------------------------------ causes

def existing(ctx, b):
    rng = ctx.rng
    for _ in range(8):
        x = rng.choice('cd')
        src, default = ('in', 'in.blp') if x == 'c' else ('in.blp', 'in')
        tail, out = with_out(ctx, b, default)
        if out == 'out':
            b.put('out', rng.choice([b'', b'precious', b.img, b.data, rng.randbytes(5000)]))
        if rng.random() < 0.15:
            src, tail = rng.choice([('in.blp', ['in.blp']), ('in.blp', ['./in.blp'])])
        if rng.random() < 0.1:
            os.makedirs(ctx.path('sd'), exist_ok=True)
            tail = ['sd']
        if rng.random() < 0.1 and not os.path.islink(ctx.path('ln')):
            os.symlink('in', ctx.path('ln'))
            tail = ['ln']
        extra = [opt(rng, '-e', '--no-check-extension')] \
            if x == 'd' and tail and rng.random() < 0.4 else []
        b.fails('existing', cmd(ctx, x, [src] + tail, extra, force=False), True)


def missing(ctx, b):
    rng = ctx.rng
    for _ in range(8):
        if rng.random() < 0.5:
            b.put('out', b'keep')
        else:
            b.drop('out')
        x = rng.choice('cdai')
        m = rng.choice(['nope', 'nope.blp', 'in.blp.blp', 'sub/x.blp', 'IN.BLP'])
        if x == 'c':
            a = cmd(ctx, x, [m] + rng.choice([[], ['out']]))
        elif x == 'd':
            e = [opt(rng, '-e', '--no-check-extension')] if rng.random() < 0.4 else []
            if not e and not m.endswith('.blp'):
                m = 'nope.blp'
            a = cmd(ctx, x, [m] + (['out'] if e else rng.choice([[], ['out'], ['in']])), e)
        elif x == 'a':
            e = [opt(rng, '-e', '--no-check-extension')] if not m.endswith('.blp') else []
            k = rng.randrange(3)
            pos = [m, 'in'] if k == 0 else ['in.blp', 'nope'] if k == 1 else [m, 'nope']
            a = cmd(ctx, x, pos, e)
        else:
            a = cmd(ctx, x, [m])
        b.fails('missing', a, True)


def extension(ctx, b):
    rng = ctx.rng
    for n in ('f.dat', 'blp', 'f.BLP', 'f.blp.bak', 'fblp'):
        b.put(n, b.img)
    for _ in range(8):
        n = rng.choice(['f.dat', 'blp', 'f.BLP', 'f.blp.bak', 'fblp'])
        k = rng.randrange(4)
        if k == 0:
            a = cmd(ctx, 'd', [n])
        elif k == 1:
            a = cmd(ctx, 'd', [n, 'out'])
        elif k == 2:
            a = cmd(ctx, 'a', [n, 'in'])
        else:
            a = cmd(ctx, 'd', [rng.choice([n, 'in.blp'])],
                    [opt(rng, '-e', '--no-check-extension')])
        b.fails('extension', a, True)


CHUNK_BAD = ['0', '-1', '-5', '0B', '0K', '-1K', '-0.5M', '1x', 'K', 'M', 'abc', '1.5', '1e3',
             '12k', '1 KB', '', ' ', '1,5M', 'infM', '-infM', 'nanM', '1e400M', 'MAX', 'Max',
             '3G', '2G', '1T', '1P', '0.0001K', '99999999999', '2147483632', '0x10', '--5M',
             '1KK', 'maxx', '1m', '0.5B', '-0', '٣K'[1:], 'G']


def ok_chunk(text):
    """None, or the number of bytes, by the documented rules."""
    suf = {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}
    try:
        n = int(float(text[:-1]) * suf[text[-1:]]) if text[-1:] in suf else int(text)
    except (ValueError, OverflowError):
        return None
    return n if 0 < n <= BIG else None


def value(ctx, b):
    rng = ctx.rng
    for _ in range(9):
        b.drop('in.blp')
        if rng.random() < 0.5:
            b.put('out', b'keep')
        doc = False
        k = rng.randrange(7)
        x = rng.choice('ca')
        g = []
        if k <= 1:
            v = rng.choice(CHUNK_BAD + [str(-rng.randrange(10 ** 6)),
                                        '%dT' % rng.randrange(1, 99), rng.choice('xyz') + '1',
                                        str(BIG + 1 + rng.randrange(10 ** rng.randrange(1, 19))),
                                        str(BIG + 1 + rng.randrange(10 ** rng.randrange(1, 19))),
                                        '%d%s' % (rng.randrange(2 ** 21, 10 ** 9), 'KM'[
                                            rng.randrange(2)])])
            if ok_chunk(v) is not None:
                continue
            x, doc = 'c', True
            e = [rng.choice(['--chunk-size=', '-z']) + v] if v else ['-z', '']
        elif k == 2:
            v = rng.choice([0, -1, 257, 1000, 2 ** 31, -2 ** 40, 2 ** 64])
            g, e, doc = [rng.choice(['--nthreads=%d', '-n%d']) % v], [], True
            x = rng.choice('cdai')
        elif k == 3:
            e = [rng.choice(['-l', '--clevel=']) + rng.choice(['10', '-1', 'x', '1.5', '', '99'])]
            e = ['-l', ''] if e[0] == '-l' else e
        elif k == 4:
            e = [rng.choice(['-c', '--codec=']) +
                 rng.choice(['foo', 'LZ4', 'None', 'lz4 ', 'blosc', 'lzma'])]
        elif k == 5:
            x = 'c'
            e = [rng.choice(['-k', '--checksum=']) +
                 rng.choice(['foo', 'CRC32', 'none', 'sha', 'md4', 'sha3', '0'])]
        else:
            e = [rng.choice(['-t', '--typesize=']) +
                 rng.choice(['0', '-1', '256', '1000', 'x', '2.0', '9999999999999'])]
        b.put('in.blp', b.img) if x != 'c' else None
        pos = {'c': ['in'], 'd': ['in.blp', 'fresh'], 'a': ['in.blp', 'in'],
               'i': ['in.blp']}[x]
        early = k != 6
        may = ()
        if x == 'c':
            pos += rng.choice([[], ['out']])
            if not early:
                if pos[-1] == 'out':
                    b.drop('out')
                may = ('in.blp', 'out')
        args = ([rng.choice(['-f', '--force'])] if rng.random() < 0.4 and early else []) + \
            g + [sub(rng, x)] + e + pos
        b.fails('value', args, doc, may_write=may)
        for n in ('in.blp',):
            b.drop(n)


def usage(ctx, b):
    rng = ctx.rng
    for _ in range(8):
        a = rng.choice([
            [], ['frobnicate'], ['frobnicate', 'in'], ['c'], ['d'], ['a'], ['i'],
            ['a', 'in.blp'], ['c', 'in', 'o1', 'o2'], ['d', 'in.blp', 'o1', 'o2'],
            ['i', 'in.blp', 'x'], ['a', 'in.blp', 'in', 'x'], ['c', '--frob', 'in', 'o'],
            ['d', '-z', '1M', 'in.blp', 'o'], ['i', '-e', 'in.blp'], ['-v', '-d', 'c', 'in', 'o'],
            ['--verbose', '--debug', 'i', 'in.blp'], ['d', '-l', '3', 'in.blp', 'o'],
            ['c', '-e', 'in', 'o'], ['a', '-z', '100', 'in.blp', 'in'], ['c', '-f', 'in', 'o'],
            ['c', '-l'], ['-n', 'c', 'in', 'o'], ['a', '-k', 'md5', 'in.blp', 'in'],
            ['in', 'o'], ['C', 'in', 'o'], ['-n', '1.5', 'c', 'in', 'o'],
            ['-n', '', 'c', 'in', 'o'], ['--frob', 'c', 'in', 'o'], ['c', '-m'], ['-n']])
        a = (['-f'] if rng.random() < 0.3 else []) + a
        if rng.random() < 0.3:
            b.put('o', b'keep')
        b.fails('usage', a)


BAD_JSON = [b'', b'{', b'{"a":}', b'nope', b"{'a': 1}", b'[1,]', b'{"a":1} x', b'\xff\xfe',
            b'{"a" 1}', b'"unterminated', b'\x00', b'{"a":1}{"b":2}', b'True', b'01']


def metadata_file(ctx, b):
    rng = ctx.rng
    for _ in range(6):
        x = rng.choice('ca')
        k = rng.randrange(4)
        force = None
        if x == 'c' and rng.random() < 0.5:
            # what would be replaced stays
            b.put('out', rng.choice([b'keep', b.img, b'']))
            force = True
        else:
            b.drop('out')
        doc = False
        if k == 0:
            m, doc = 'nofile.json', True
        elif k == 1:
            os.makedirs(ctx.path('sd'), exist_ok=True)
            m, doc = 'sd', True
        elif k == 2:
            m, doc = '', True
            ctx.event('metadata_without_name')
        else:
            m = b.put('bad.json', rng.choice(BAD_JSON))
        e = [opt(rng, '-m', '--metadata', m) if m else
             rng.choice([['-m', ''], ['--metadata', ''], ['--metadata=']])]
        pos = ['in', 'out'] if x == 'c' else ['in.blp', 'in']
        b.fails('metadata_file', cmd(ctx, x, pos, e, force=force), doc)


def sections(img):
    f = ref.parse(img)
    out = []
    if f.meta:
        out.append(('meta', f.meta['start'], f.meta['start'] + f.meta['comp_size']))
        if f.meta['digest']:
            out.append(('meta', f.meta['digest_pos'], f.meta['end']))
    for i, c in enumerate(f.chunks):
        if c['digest']:
            out.append(('chunk%d' % i, c['pos'] + 16, c['end']))
    return f, out


def flip(rng, img, a, z):
    p = rng.randrange(a, z)
    return img[:p] + bytes([img[p] ^ rng.randrange(1, 256)]) + img[p + 1:], p


def set_out(ctx, b):
    """(positional, may be written, force)"""
    rng = ctx.rng
    if rng.random() < 0.4:
        b.put('out', b'old')
        return ['out'], ('out',), True
    b.drop('out')
    return ['out'], ('out',), False


def damaged(ctx, b):
    rng = ctx.rng
    f, secs = sections(b.img)
    secs = [s for s in secs if s[2] > s[1]]
    if f.meta is None or f.meta['checksum'] == 'None':
        secs = [s for s in secs if s[0] != 'meta']
    if not secs:
        b.s['bpack']['checksum'] = 'crc32'
        b.img = ops.mk(b.data, b.s)
        f, secs = sections(b.img)
        secs = [s for s in secs if s[0] != 'meta' and s[2] > s[1]]
    for _ in range(8):
        name, a, z = rng.choice(secs)
        bad, p = flip(rng, b.img, a, z)
        try:
            ref.parse(bad)
            continue
        except ref.Bad as e:
            if 'checksum' not in str(e):
                continue
        b.put('bad.blp', bad)
        x = 'd' if rng.random() < 0.7 or name != 'meta' else 'i'
        if x == 'i':
            b.fails('damaged', cmd(ctx, 'i', ['bad.blp']), sig=(p, bad[p]))
            continue
        tail, may, force = set_out(ctx, b)
        b.fails('damaged', cmd(ctx, 'd', ['bad.blp'] + tail, force=force), True, may,
                sig=(p, bad[p]))


def truncated(ctx, b):
    rng = ctx.rng
    f = ref.parse(b.img)
    for _ in range(8):
        k = rng.randrange(4)
        cut = (rng.randrange(0, len(b.img)) if k == 0 else len(b.img) - 1 if k == 1 else
               rng.randrange(0, f.first + 16) if k == 2 else
               rng.choice(f.chunks)['pos'] + rng.randrange(0, 16))
        b.put('bad.blp', b.img[:cut])
        if cut < f.first + 16 and rng.random() < 0.4:
            b.fails('truncated', cmd(ctx, 'i', ['bad.blp']), sig=cut)
            continue
        tail, may, force = set_out(ctx, b)
        b.fails('truncated', cmd(ctx, 'd', ['bad.blp'] + tail, force=force), False, may,
                sig=cut)


def foreign(ctx, b):
    rng = ctx.rng
    for _ in range(8):
        bad = rng.choice([b'', b'b', b'blp', b'PK\x03\x04' + rng.randbytes(60),
                          rng.randbytes(rng.randrange(1, 300)), b'text file\n' * 20,
                          b'BLPK' + b.img[4:], b'klpb' + b.img[4:], b'\x00' * 400,
                          b'\x1f\x8b' + b.img[2:], b.img[1:], b'x' + b.img, b.data])
        if bad[:4] == b'blpk':
            continue
        b.put('bad.blp', bad)
        k = rng.randrange(5)
        if k == 0:
            b.fails('foreign', cmd(ctx, 'i', ['bad.blp']))
        elif k == 1:
            b.fails('foreign', cmd(ctx, 'a', ['bad.blp', 'in']))
        else:
            tail, may, force = set_out(ctx, b)
            b.fails('foreign', cmd(ctx, 'd', ['bad.blp'] + tail, force=force), False, may,
                    sig=bad)


def version(ctx, b):
    rng = ctx.rng
    for _ in range(6):
        v = rng.choice([0, 1, 2, 4, 5, 255, 128, rng.randrange(256)])
        if v == 3:
            continue
        b.put('bad.blp', b.img[:4] + bytes([v]) + b.img[5:])
        k = rng.randrange(5)
        if k == 0:
            b.fails('version', cmd(ctx, 'i', ['bad.blp']), sig=v)
        elif k == 1:
            b.fails('version', cmd(ctx, 'a', ['bad.blp', 'in']), sig=v)
        else:
            tail, may, force = set_out(ctx, b)
            b.fails('version', cmd(ctx, 'd', ['bad.blp'] + tail, force=force), True, may,
                    sig=v)


def append(ctx, b):
    """Appends that have to be refused leave the file alone."""
    rng = ctx.rng
    f = ref.parse(b.img)
    for _ in range(6):
        k = rng.randrange(4)
        img, piece = b.img, gen.data(rng, rng.choice([1, 10, 100]))
        if k == 0 or not f.h['offsets']:
            s = dict(b.s, bpack=dict(b.bp, offsets=False))
            img = ops.mk(b.data, s)
            if rng.random() < 0.3:
                piece = b''
        elif k == 1:
            s = dict(b.s, bpack=dict(b.bp, max_app=('int', rng.randrange(3))))
            img = ops.mk(b.data, s)
            g = ref.parse(img).h
            room = g['chunk_size'] - g['last_chunk'] + g['chunk_size'] * g['max_app']
            piece = gen.data(rng, room + rng.choice([1, 2, 100]))
        elif k == 2 and b.bp['checksum'] != 'None':
            c = f.chunks[-1]
            img, _ = flip(rng, img, c['pos'] + 16, c['end'])
            try:
                ref.parse(img)
                continue
            except ref.Bad:
                pass
            piece = gen.data(rng, 1)
        else:
            img = img[:rng.randrange(0, f.chunks[-1]['end'])]
            piece = gen.data(rng, 1)
        b.put('t.blp', img)
        b.put('piece', piece)
        b.fails('append', cmd(ctx, 'a', ['t.blp', 'piece']), sig=(img, len(piece)))


def space(ctx, b):
    """The output does not fit: limited file size."""
    rng = ctx.rng
    big = gen.data(rng, rng.choice([3000, 70000, 300000]), 'random')
    b.put('big', big)
    img = ops.mk(big, ops.spec(rng.choice([1000, 30000]), None,
                               dict(offsets=True, checksum='adler32', max_app=('int', 5)),
                               None, None))
    b.put('big.blp', img)
    for _ in range(4):
        x = rng.choice('cd')
        src, size = ('big', None) if x == 'c' else ('big.blp', len(big))
        b.drop('out')
        force = rng.random() < 0.3
        if force:
            b.put('out', b'old')
        if x == 'c':
            a = globs(ctx, force) + [sub(rng, 'c'), '-z', rng.choice(['1000', '30K']),
                                     src, 'out']
            size = len(big)     # random data does not shrink
        else:
            a = cmd(ctx, 'd', [src, 'out'], force=force)
        limit = rng.choice([0, 1, 31, 100, size // 2, size - 1, size // 3])

        def before():
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            # what the monitor itself captures is not limited
            import sys
            sys.stdout = open(os.devnull, 'w')
            sys.stderr = open(os.devnull, 'w')
        b.fails('space', a, False, ('out',), before, sig=(x, size, limit))


def shrink(ctx, b):
    """The input becomes shorter while it is read."""
    rng = ctx.rng
    big = gen.data(rng, rng.choice([100000, 300000]), 'random')
    old = gen.data(rng, 2500)
    img = ops.mk(old, ops.spec(1000, None, dict(offsets=True, checksum='adler32',
                                                max_app=('int', 500)), None, None))
    for _ in range(5):
        x = rng.choice('cca')
        b.put('big', big)
        b.put('big.blp', img)
        b.drop('out')
        if x == 'c':
            a = globs(ctx, False) + [sub(rng, 'c'), '-z', rng.choice(['1000', '10K']), 'big', 'out']
        else:
            a = cmd(ctx, 'a', ['big.blp', 'big'])
        left = rng.choice([0, 1, 1000, 30000, rng.randrange(60000)])
        at = rng.randrange(1, 4)
        name = ctx.path('big')

        def before():
            import blosc
            real, n = blosc.compress, [0]

            def compress(*args, **kw):
                n[0] += 1
                if n[0] == at:
                    os.truncate(name, left)
                return real(*args, **kw)
            blosc.compress = compress
        ctx.note['command'] = a
        r = cli.forked(a, ctx.dir, before=before)
        what = 'blpk %s, of which the input is cut to %d bytes' % (' '.join(a), left)
        for e in ('commands', 'evaluations', 'cause:shrink'):
            ctx.event(e)
        if r.rc == 0:
            # all of it may have been read before
            want = big if x == 'c' else old + big
            ctx.check(ref.parse(ops.read(ctx.path('out' if x == 'c' else 'big.blp'))).data == want,
                      what + ' exited 0', result=repr(r))
            ctx.event('shrunk_too_late')
        else:
            ctx.check(0 < r.rc < 126, what + ' was killed', result=repr(r))
        ctx.check(ops.read(ctx.path('in')) == b.data and ops.read(ctx.path('in.blp')) == b.img,
                  what + ' changed other files')
        ctx.nontrivial('shrink', a, left, at)


def head(ctx, b):
    """Headers whose values are impossible."""
    rng = ctx.rng
    import struct
    for _ in range(8):
        h = list(struct.unpack('<4sBBBBiiqq', b.img[:32]))
        k = rng.randrange(7)
        if k == 0:
            h[2] |= rng.choice([4, 8, 16, 32, 64, 128])
        elif k == 1:
            h[3] = rng.randrange(9, 256)
        elif k == 2:
            h[5] = rng.choice([-2, -2 ** 31, 2 ** 31 - 1])
        elif k == 3:
            h[6] = rng.choice([-2, -2 ** 31, 2 ** 31 - 1])
        elif k == 4:
            h[7] = rng.choice([-2, -2 ** 63])
        elif k == 5:
            h[8] = rng.choice([-1, -2 ** 63])
        else:
            h[6] = h[5] + 1
            if h[6] <= 0:
                continue
        b.put('bad.blp', struct.pack('<4sBBBBiiqq', *h) + b.img[32:])
        if rng.random() < 0.3:
            b.fails('head', cmd(ctx, 'i', ['bad.blp']), sig=h)
        else:
            tail, may, force = set_out(ctx, b)
            b.fails('head', cmd(ctx, 'd', ['bad.blp'] + tail, force=force), False, may, sig=h)


def case(ctx, kind, arg):
    ctx.state['real'] = kind == 'real'
    b = Bed(ctx)
    ctx.note['spec'] = b.s
    fns = globals()
    if kind == 'real':
        for c in ctx.rng.sample(CAUSES[:-3], 3):
            fns[c](ctx, b)
            for n in ('in', 'in.blp'):
                b.put(n, b.data if n == 'in' else b.img)
    else:
        fns[kind](ctx, b)
    ctx.sample({'cause': kind, 'command': ctx.note.get('command')})
