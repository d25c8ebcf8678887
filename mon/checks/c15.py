"""C15: the command line gives the same results as the library."""
import ast
import json
import os

from .. import cli, gen, hist, ops, ref

RULE = ('a case is one directory under a history of blpk commands (compress, decompress, append, '
        'info) in random spellings; after every command the exit status, every file in the '
        'directory, the format and settings of the result and, for compress with one thread, '
        'byte equality with the library are judged; distinct by the commands of the history')
ASSUMPTIONS = ['options follow or precede all positional arguments of a subcommand (argparse)']
REQUIRE = {'commands': 2500, 'compress': 800, 'decompress': 1000, 'append': 400,
           'append_metadata': 100, 'byte_equal': 700, 'default_name': 500, 'forced': 150,
           'no_check_extension': 100, 'real_process': 25, 'several_chunks': 300,
           'metadata': 200, 'threads': 60, 'verbose': 100, 'big': 6, 'odd_name': 300,
           'metadata_printed': 150, 'long_metadata': 6, 'settings_checked': 200, 'max': 1}

NAMES = ['data', 'data.bin', 'with space', 'dé 中', '.hidden', 'x.blp', 'a.blp.blp',
         'UPPER.BLP', "quo'te", 'percent%s', 'tab\tname', 'plain.txt', 'blp', '{0}',
         '--dashes', '-x', 'x.blp2', '.blp', 'x.bak', 'x.gz', 'x.tar.gz', 'x.blp.bak', 'x.txt',
         'x.npy', 'x.blpx', 'blp.blp', 'a.blp.b', 'x.tmp', 'x~', 'x.json', 'x.', 'x..blp', 'no.ext.blp.blp']


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 20}[tier]
    return ([('max', 0)] + [('big', n) for n in range(10 * q)] + [('hist', n) for n in range(600 * q)] +
            [('real', n) for n in range(12 * q)])


# ------------------------------------------------------------- spellings

def opt(rng, short, long_, value=None):
    if value is None:
        return [rng.choice([short, long_])]
    k = rng.randrange(4)
    if k == 0:
        return [short, value]
    if k == 1:
        return [short + value]
    if k == 2:
        return [long_, value]
    return ['%s=%s' % (long_, value)]


def glob(ctx, force):
    rng = ctx.rng
    groups, threads = [], 1
    k = rng.random()
    if k < 0.85:
        groups.append(opt(rng, '-n', '--nthreads', '1'))
    elif k < 0.93:
        threads = rng.choice([2, 2, 3, 3, 8, 8, 17, rng.choice([64, 100, 255, 256, 200])])
        groups.append(opt(rng, '-n', '--nthreads', str(threads)))
        ctx.event('threads')
    else:
        threads = 0
    if rng.random() < 0.15:
        groups.append([rng.choice(['-v', '--verbose', '-d', '--debug'])])
        ctx.event('verbose')
    if force:
        groups.append([rng.choice(['-f', '--force'])])
        ctx.event('forced')
    rng.shuffle(groups)
    return sum(groups, []), threads


def blosc_opts(ctx, typesize_always=False):
    rng = ctx.rng
    a = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')
    g = []
    if rng.random() < 0.6:
        a['typesize'] = gen.typesize(rng)
        g.append(opt(rng, '-t', '--typesize', str(a['typesize'])))
    if rng.random() < 0.6:
        a['clevel'] = rng.randrange(10)
        g.append(opt(rng, '-l', '--clevel', str(a['clevel'])))
    if rng.random() < 0.4:
        a['shuffle'] = False
        g.append(opt(rng, '-s', '--no-shuffle'))
    if rng.random() < 0.6:
        a['cname'] = rng.choice(gen.CNAMES)
        g.append(opt(rng, '-c', '--codec', a['cname']))
    return a, g


def place(rng, sub, groups, pos):
    rng.shuffle(groups)
    flat = sum(groups, [])
    if any(p.startswith('-') for p in pos):
        return [sub] + flat + ['--'] + pos
    return [sub] + (flat + pos if rng.random() < 0.6 else pos + flat)


def size_text(rng, n):
    """A chunk size option value meaning n bytes."""
    forms = [str(n), '%dB' % n, '0%d' % n, '+%d' % n, '%d.0B' % n, '00%dB' % n]
    if n % 1024 == 0:
        forms += ['%dK' % (n // 1024), '%.1fK' % (n // 1024)]
    if n % (1 << 20) == 0:
        forms += ['%dM' % (n >> 20)] * 3
    elif n % (1 << 18) == 0:
        forms += ['%sM' % (n / float(1 << 20))] * 3
    return rng.choice(forms)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            if not f.startswith('.cli.'):
                p = os.path.join(root, f)
                out[os.path.relpath(p, d)] = ops.read(p)
    return out


class Dir(object):
    """The files of the directory as they have to be."""

    def __init__(self, ctx, real):
        self.ctx, self.real = ctx, real
        self.files = {}
        self.models = {}
        self.serial = 0

    def put(self, name, data):
        p = os.path.join(self.ctx.dir, name)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        ops.write(p, data)
        self.files[name] = data

    def name(self):
        rng = self.ctx.rng
        for _ in range(50):
            n = rng.choice(NAMES)
            if n not in ('data', 'data.bin'):
                self.ctx.event('odd_name')
            if rng.random() < 0.15:
                n = os.path.join('sub', n)
            if rng.random() < 0.3:
                self.serial += 1
                n += '%d' % self.serial
            if n not in self.files:
                os.makedirs(os.path.join(self.ctx.dir, 'sub'), exist_ok=True)
                return n
        self.serial += 1
        return 'f%d' % self.serial

    def arg(self, name):
        """How the command line names this file."""
        k = self.ctx.rng.random()
        if k < 0.15:
            return os.path.join(self.ctx.dir, name)
        if k < 0.3:
            return './' + name
        return name

    def run(self, args, out=None):
        """Runs a command that has to succeed and may only change `out`."""
        ctx = self.ctx
        ctx.note.setdefault('commands', []).append(args)
        r = cli.real(args, ctx.dir) if self.real else cli.forked(args, ctx.dir)
        ctx.event('commands')
        ctx.event('evaluations')
        if self.real:
            ctx.event('real_process')
        ctx.check(r.rc == 0, 'blpk %s failed: %r' % (' '.join(args), r))
        now = snapshot(ctx.dir)
        if out is not None:
            ctx.check(out in now, 'blpk %s did not write %r' % (' '.join(args), out),
                      files=sorted(now))
        for n in set(now) | set(self.files):
            if n != out:
                ctx.check(now.get(n) == self.files.get(n),
                          'blpk %s changed, created or deleted %r' % (' '.join(args), n))
        if out is not None:
            self.files[out] = now[out]
            return r, now[out]
        return r, None

    def metadata_file(self, value):
        rng = self.ctx.rng
        n = 'm-' + self.name().replace('/', '_')
        text = json.dumps(value, indent=rng.choice([None, None, 1, 4]),
                          ensure_ascii=rng.random() < 0.6)
        self.put(n, (rng.choice(['', '\n', '  ', '\r\n']) + text +
                     rng.choice(['', '\n', ' \n\n'])).encode('utf-8', 'surrogatepass'))
        return n


def out_of(ctx, d, default):
    """(positional arguments for the output, its name, force)"""
    rng = ctx.rng
    explicit = d.name() if rng.random() < 0.5 else default
    out = explicit
    force = rng.random() < 0.15
    if out in d.files or (rng.random() < 0.15 and out not in d.models):
        if out in d.files and out in ctx.state.get('keep', ()):
            out = explicit = d.name()
        force = True
        if out not in d.files:
            d.put(out, rng.randbytes(rng.choice([0, 10, 5000])))
    if out == default and rng.random() < 0.8:
        ctx.event('default_name')
        return [], out, force
    return [d.arg(out)], out, force


def compress(ctx, d, big=False):
    rng = ctx.rng
    src = d.name()
    if big:
        size = rng.choice([3 << 20, (1 << 20) + 1, 1 << 20, rng.randrange(1 << 20, 5 << 20)])
        chunk = rng.choice([None, None, 1 << 18, 1 << 19, 1 << 20, 3 << 18, 'max'])
        ctx.event('big')
    else:
        size, chunk = gen.size_and_chunk(rng)
        if rng.random() < 0.15:
            chunk = rng.choice([None, 'max', 1024, 2048])
    d.put(src, gen.data(rng, size))
    a, groups = blosc_opts(ctx)
    bp = dict(offsets=True, checksum='adler32', max_app=('default', None))
    if rng.random() < 0.6:
        bp['checksum'] = rng.choice(gen.CHECKSUMS)
        groups.append(opt(rng, '-k', '--checksum', bp['checksum']))
    if rng.random() < 0.2:
        bp['offsets'] = False
        groups.append(opt(rng, '-o', '--no-offsets'))
    meta = None
    if rng.random() < 0.4:
        meta = gen.metadata(rng)
        if rng.random() < 0.06:
            meta = rng.choice([
                lambda: {'blob': gen.text(rng, 4) + 'ab' * rng.randrange(30000, 90000)},
                lambda: [rng.randrange(10 ** 6) for _ in range(rng.randrange(9000, 30000))],
                lambda: dict(('k%d' % i, [i, 'x']) for i in range(rng.randrange(4000, 9000))),
                lambda: gen.text(rng, 9000)])()
            ctx.event('long_metadata')
        mf = d.metadata_file(meta)
        groups.append(opt(rng, '-m', '--metadata', d.arg(mf)))
        ctx.event('metadata')
    if chunk is not None:
        groups.append(opt(rng, '-z', '--chunk-size', chunk if chunk == 'max' else
                          size_text(rng, chunk)))
    real_chunk = 1 << 20 if chunk is None else ref.MAXBUF if chunk == 'max' else chunk
    ctx.state['keep'] = [src]
    tail, out, force = out_of(ctx, d, src + '.blp')
    g, threads = glob(ctx, force)
    args = g + place(rng, rng.choice(['compress', 'c']), groups, [d.arg(src)] + tail)
    before = d.files[src]
    r, img = d.run(args, out)
    ctx.event('compress')
    what = 'blpk %s' % ' '.join(args)
    try:
        f = ref.conform(img)
    except ref.Bad as e:
        ctx.fail('%s wrote a file that does not follow the format: %s' % (what, e))
    ctx.check(f.data == before, what + ' did not store the file')
    n, c, last = ref.split(size, real_chunk)
    want = dict(nchunks=n, chunk_size=c, last_chunk=last, checksum=bp['checksum'],
                offsets=bp['offsets'], typesize=a['typesize'], metadata=meta is not None,
                max_app=10 * n if bp['offsets'] else 0, version=3)
    ctx.check(f.h == want, what + ' wrote other settings', header=f.h, want=want)
    if n > 1:
        ctx.event('several_chunks')
    if meta is not None:
        ctx.check(gen.same_json(f.meta['value'], meta), what + ' stored other metadata',
                  stored=f.meta['value'], given=meta)
    if threads == 1:
        lib = ops.mk(before, ops.spec(real_chunk, a, bp, meta, None))
        ctx.check(img == lib, what + ' differs from what the library writes')
        ctx.event('byte_equal')
        for ch in f.chunks[:3]:
            ctx.check(ch['raw'] == ops.compress_direct(ch['data'], a),
                      what + ' did not use the settings')
        ctx.event('settings_checked')
    d.models[out] = hist.Model(img)
    d.models[out].spec = a
    return out


def decompress(ctx, d, src=None):
    rng = ctx.rng
    src = src or rng.choice(sorted(d.models))
    m = d.models[src]
    groups = []
    g_e = rng.random() < 0.25 or not src.endswith('.blp')
    ctx.state['keep'] = [src]
    if g_e:
        groups.append(opt(rng, '-e', '--no-check-extension'))
        ctx.event('no_check_extension')
        out = d.name()
        force = rng.random() < 0.2
        tail = [d.arg(out)]
    else:
        default = src[:-4]
        if not os.path.basename(default):
            out = d.name()
            tail, force = [d.arg(out)], False
        else:
            tail, out, force = out_of(ctx, d, default)
    if out == src or out in d.models:
        out = d.name()
        tail = [d.arg(out)]
    g, threads = glob(ctx, force)
    args = g + place(rng, rng.choice(['decompress', 'd']), groups, [d.arg(src)] + tail)
    r, got = d.run(args, out)
    ctx.event('decompress')
    what = 'blpk %s' % ' '.join(args)
    ctx.check(got == m.data, what + ' did not restore the file', got=len(got),
              want=len(m.data))
    if not any(x in g for x in ('-v', '--verbose', '-d', '--debug')):
        if m.meta:
            check_metadata_output(ctx, r.out, m.meta, what)
        else:
            ctx.check(r.out == '', what + ' printed something', out=r.out)


def check_metadata_output(ctx, out, meta, what):
    lines = out.split('\n')
    ctx.check(lines[0] == 'blpk: Metadata:' and lines[-1] == '' and
              all(x.startswith('blpk: ') for x in lines[1:-1]),
              what + ' did not print the metadata', out=out)
    text = '\n'.join(x[6:] for x in lines[1:-1])
    try:
        v = ast.literal_eval(text)
    except (SyntaxError, ValueError) as e:
        ctx.fail('%s printed metadata that cannot be read: %s' % (what, e), out=out)
    ctx.check(gen.same_json(v, meta), what + ' printed other metadata', out=out, want=meta)
    ctx.event('metadata_printed')


def raw_size(v):
    return len(json.dumps(v, separators=(',', ':')).encode())


def append(ctx, d):
    rng = ctx.rng
    usable = sorted(n for n in d.models if d.models[n].h['offsets'])
    if not usable:
        return
    dst = rng.choice(usable)
    m = d.models[dst]
    size = hist.piece_size(rng, m)
    if not m.fits(size):
        return
    new = d.name()
    piece = gen.data(rng, size)
    d.put(new, piece)
    a, groups = blosc_opts(ctx)
    meta = None
    if m.meta is not None and rng.random() < 0.6:
        room = ref.parse(d.files[dst], decode=False).meta['max_size']
        for _ in range(8):
            v = rng.choice([gen.metadata(rng), {'n': rng.randrange(1000)}])
            if raw_size(v) <= room and v != m.meta:
                meta = v
                break
    if meta is not None:
        groups.append(opt(rng, '-m', '--metadata', d.arg(d.metadata_file(meta))))
    if not dst.endswith('.blp') or rng.random() < 0.15:
        groups.append(opt(rng, '-e', '--no-check-extension'))
    g, threads = glob(ctx, rng.random() < 0.1)
    args = g + place(rng, rng.choice(['append', 'a']), groups, [d.arg(dst), d.arg(new)])
    old_n = m.n
    r, img = d.run(args, dst)
    what = 'blpk %s' % ' '.join(args)
    ctx.event('append')
    m.applied(piece)
    if meta is not None:
        ctx.event('append_metadata')
        g = ref.parse(img)
        ctx.check(gen.same_json(g.meta['value'], meta), what + ' did not replace the metadata',
                  stored=g.meta['value'], given=meta)
        m.section = img[32:g.offsets_pos]
        m.meta = meta
    hist.verify(ctx, img, m, what, a if threads == 1 else None, old_n, piece)


def info(ctx, d):
    src = ctx.rng.choice(sorted(d.models))
    if src.startswith('-'):
        return
    g, _ = glob(ctx, False)
    d.run(g + [ctx.rng.choice(['info', 'i']), d.arg(src)])


def case_max(ctx):
    """'max' with more than two gigabytes, in a file without blocks."""
    rng = ctx.rng
    tail = rng.choice([1, 5, 70000])
    with open(ctx.path('g'), 'wb') as fp:
        fp.truncate(ref.MAXBUF + tail)
    args = ['-n', '4', 'c', '-l', '1', '-z', 'max'] + rng.choice([[], ['-o']]) + ['g']
    r = cli.forked(args, ctx.dir)
    ctx.check(r.rc == 0, 'blpk %s failed: %r' % (' '.join(args), r))
    ctx.event('commands')
    ctx.event('evaluations')
    ctx.event('max')
    with open(ctx.path('g.blp'), 'rb') as fp:
        img = fp.read()
    f = ref.parse(img, decode=False)
    got = (f.h['nchunks'], f.h['chunk_size'], f.h['last_chunk'],
           [c['nbytes'] for c in f.chunks])
    want = (2, ref.MAXBUF, tail, [ref.MAXBUF, tail])
    ctx.check(got == want, 'blpk %s wrote other chunks' % ' '.join(args), got=got, want=want)
    ctx.check(f.end == len(img), 'stray bytes')
    ctx.note['commands'] = [args]
    ctx.nontrivial(args, tail)
    os.unlink(ctx.path('g'))


def case(ctx, kind, arg):
    if kind == 'max':
        return case_max(ctx)
    rng = ctx.rng
    d = Dir(ctx, kind == 'real')
    compress(ctx, d, kind == 'big')
    for _ in range(rng.choice([1, 2, 3, 5, 7])):
        rng.choice([compress, decompress, decompress, append, append, info])(ctx, d)
    for n in sorted(d.models)[:2]:
        decompress(ctx, d, n)
    ctx.nontrivial(ctx.note['commands'])
    ctx.sample({'commands': ctx.note['commands']})
