"""C33: what is said while working, and in an error, is true."""
import ast
import collections
import contextlib
import io
import os
import re
import zlib

import blosc
import numpy as np

import bloscpack as bp
from bloscpack import abstract_io, append as ap, args as bargs, file_io, headers, log, numpy_io

from .. import cli, core, gen, ops, ref

RULE = ('a case is one operation or command at one verbosity, one error, or one settings or header '
        'object; evaluations counts cases; distinct by operation, settings and content')
ASSUMPTIONS = ['statements that are not made, or are worded in another way, are not judged',
               'the lines that a command prints at the normal level are judged by C17']
REQUIRE = {'facts': 30000, 'failed_commands': 24, 'help_facts': 300, 'help_commands': 250,
           'threads_used': 90, 'heard:append': 203, 'heard:command': 84,
           'heard:pack': 268, 'heard:rewrite': 116, 'heard:unpack': 229, 'level': 75,
           'lines': 15000, 'object:BloscArgs': 42, 'object:BloscpackArgs': 43,
           'object:BloscpackHeader': 44, 'object:MetadataArgs': 51, 'object:MetadataHeader': 42,
           'provoked:append': 17, 'provoked:args': 8, 'provoked:chunk': 31,
           'provoked:ctbytes': 17, 'provoked:element': 11, 'provoked:eof': 14,
           'provoked:last': 14, 'provoked:length': 15, 'provoked:magic': 15, 'provoked:many': 15,
           'provoked:meta': 17, 'provoked:options': 16, 'provoked:range': 36,
           'provoked:same': 13, 'provoked:short meta': 14, 'provoked:small': 13,
           'provoked:typesize': 12, 'provoked:value': 10, 'provoked:version': 14}
PRETTY = r'(0B|\d+(?:\.\d+)?[BKMGT])'
SIZE = PRETTY + r' \((-?\d+)B\)'
UNITS = {'B': 1, 'K': 1 << 10, 'M': 1 << 20, 'G': 1 << 30, 'T': 1 << 40}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 25}[tier]
    return [(k, n) for k, m in (('pack', 700), ('unpack', 600), ('append', 500), ('rewrite', 300),
                                ('command', 240), ('error', 800), ('object', 500), ('size', 100),
                                ('level', 150), ('help', 60)) for n in range(m * q)]


def case(ctx, kind, arg):
    ctx.note = {'kind': kind}
    ctx.number = arg
    level = log.LEVEL
    try:
        globals()['case_' + kind](ctx)
    finally:
        log.LEVEL = level
    ctx.event('evaluations')
    ctx.event(kind)
    ctx.nontrivial(kind, ctx.note)
    ctx.sample(ctx.note)


def is_pretty(s, n):
    """Is s the rounded size n in the largest unit that fits?"""
    if s == '0B':
        return n == 0
    u = UNITS[s[-1]]
    if n < u or any(u < v <= n for v in UNITS.values()):
        return False
    return abs(float(s[:-1]) * u - n) <= 0.00501 * u


def said(level, fn):
    """(outcome, lines) of a call at a verbosity."""
    out, err = io.StringIO(), io.StringIO()
    log.set_level(level)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                r = ('ok', fn())
            except BaseException as e:
                if not core.is_ordinary(e):
                    raise
                r = ('exc', e)
    finally:
        log.set_level('NORMAL')
    return r, out.getvalue(), err.getvalue()


def lines_of(ctx, text, prefix):
    r = []
    for l in text.split('\n'):
        if not l:
            continue
        ctx.check(l.startswith(prefix + ': '), 'a line without its prefix', line=l, note=ctx.note)
        r.append(l[len(prefix) + 2:])
    return r


class Facts(object):
    """What is true of an operation: the image read, the image written, the sizes."""

    def __init__(self, ctx, before=None, after=None, old=b'', new=b'', **k):
        self.ctx, self.before, self.after, self.old, self.new = ctx, before, after, old, new
        self.__dict__.update(k)
        self.handled = collections.defaultdict(list)
        self.line = None

    def __getattr__(self, n):
        return None

    def true(self, cond, **k):
        self.ctx.event('facts')
        self.ctx.check(cond, 'an untrue line', line=self.line, note=self.ctx.note, **k)

    def eq(self, a, *allowed):
        self.true(a in allowed, said=core.short(a), true=core.short(allowed))

    def size(self, m, *allowed):
        """Two groups: rounded and exact, or one: rounded."""
        g = m.groups()
        if len(g) > 1:
            self.eq(int(g[1]), *allowed)
            self.true(is_pretty(g[0], int(g[1])))
        else:
            self.true(any(is_pretty(g[0], n) for n in allowed), true=allowed)

    def ratio(self, s, a, b):
        self.true(abs(float(s) - a / b) <= 6e-7 + 1e-9 * a / b, true=a / b)

    def images(self):
        return [f for f in (self.before, self.after) if f is not None]


def lit(s):
    return ast.literal_eval(s)


def call_of(s):
    """The keywords of 'Name(a=1, ...)'."""
    n = ast.parse(s.strip(), mode='eval').body
    return n.func.id, dict((k.arg, ast.literal_eval(k.value)) for k in n.keywords)


def head_of(f):
    h = f.h
    return {'format_version': h['version'], 'offsets': h['offsets'], 'metadata': h['metadata'],
            'checksum': h['checksum'], 'typesize': h['typesize'], 'chunk_size': h['chunk_size'],
            'last_chunk': h['last_chunk'], 'nchunks': h['nchunks'], 'max_app_chunks': h['max_app']}


def meta_of(f):
    m = f.meta
    return {'magic_format': m['magic'].rstrip(b'\0'), 'meta_options': '00000000',
            'meta_checksum': m['checksum'], 'meta_codec': m['codec'], 'meta_level': m['level'],
            'meta_size': m['size'], 'max_meta_size': m['max_size'],
            'meta_comp_size': m['comp_size'], 'user_codec': m['user'].rstrip(b'\0')}


LINES = []


def line(pattern):
    def reg(fn):
        LINES.append((re.compile(pattern + r'\Z', re.S), fn, fn.__name__))
        return fn
    return reg


@line('(?:input|new) (?:file|bytes) size: ' + SIZE)
def in_size(w, m):
    w.size(m, w.in_size)


@line('input file size: ' + PRETTY)
def in_pretty(w, m):
    w.size(m, w.in_size)


@line('output (?:file|bytes) size: ' + SIZE)
def out_size(w, m):
    w.size(m, w.out_size)


@line('output file size: ' + PRETTY)
def out_pretty(w, m):
    w.size(m, w.out_size)


@line(r'compression ratio: (\S+)')
def ratio(w, m):
    w.ratio(m.group(1), w.in_size, w.out_size)


@line(r'decompression ratio: (\S+)')
def deratio(w, m):
    w.ratio(m.group(1), w.out_size, w.in_size)


@line(r'[Aa]pproximate compression ratio of appended data: (\S+)')
def appratio(w, m):
    grown = len(w.new) - len(w.old)
    w.true(grown > 0)
    w.ratio(m.group(1), w.in_size, grown)


@line('orig file size before append: ' + SIZE)
def orig_before(w, m):
    w.size(m, len(w.old))


@line('orig file size after append: ' + SIZE)
def orig_after(w, m):
    w.size(m, len(w.new))


@line(r'nchunks: (\d+)')
def nchunks(w, m):
    w.eq(int(m.group(1)), w.split[0])


@line('chunk_size: ' + SIZE)
def chunk_size(w, m):
    w.size(m, w.split[1])


@line('last_chunk_size: ' + SIZE)
def last_chunk_size(w, m):
    w.size(m, w.split[2])


@line("Input was length zero, ignoring 'chunk_size'")
def zero(w, m):
    w.eq(w.in_size, 0)


@line("Input was smaller than the given 'chunk_size': " + SIZE + ' using: ' + SIZE)
def smaller(w, m):
    g = m.groups()
    w.eq(int(g[1]), w.asked)
    w.eq(int(g[3]), w.split[1])
    w.true(int(g[3]) < int(g[1]))
    w.true(is_pretty(g[0], int(g[1])) and is_pretty(g[2], int(g[3])))


@line(r'(?:bloscpack_header_raw|raw_bloscpack_header): (.*)')
def raw_header(w, m):
    read = m.group(0).startswith('bloscpack_header_raw')
    w.eq(lit(m.group(1)), (w.old if read else w.new)[:32])


@line(r'bloscpack header: (BloscpackHeader\(.*\))')
def header_repr(w, m):
    name, d = call_of(m.group(1))
    w.eq(d, head_of(w.before))


@line(r'raw metadata header: (.*)')
def raw_meta_read(w, m):
    w.eq(lit(m.group(1)), w.old[32:64])


@line(r'raw_metadata_header: (.*)')
def raw_meta_written(w, m):
    w.eq(lit(m.group(1)), w.new[32:64])


@line(r"Raw (compressed|uncompressed) metadata of size '(\d+)': (.*)")
def payload(w, m):
    f = w.after.meta
    w.eq(int(m.group(2)), f['comp_size'])
    w.eq(lit(m.group(3)), f['payload'])
    w.eq(m.group(1) == 'compressed', f['codec'] != 'None')


@line(r"read (compressed|uncompressed) metadata of size: '(\d+)'")
def payload_read(w, m):
    f = w.before.meta
    w.eq(int(m.group(2)), f['comp_size'])
    w.eq(m.group(1) == 'compressed', f['codec'] != 'None')


@line(r"metadata compression requested, but it was not beneficial, deactivating "
      r"\(raw: '(\d+)' vs\. compressed: '(\d+)'\) ?")
def not_beneficial(w, m):
    f = w.after.meta
    w.eq(f['codec'], 'None')
    w.eq(int(m.group(1)), f['size'])
    w.true(int(m.group(2)) >= f['size'])
    w.eq(int(m.group(2)), *[len(zlib.compress(f['raw'], n)) for n in range(10)])


@line(r'max meta size is deemed to be: (\d+)')
def max_meta(w, m):
    w.eq(int(m.group(1)), w.after.meta['max_size'])


@line(r'metadata has (\d+) preallocated empty bytes')
def prealloc(w, m):
    w.eq(int(m.group(1)), w.after.meta['max_size'] - w.after.meta['comp_size'])


@line(r'metadata checksum \((\w+)\): (.*)')
def meta_digest(w, m):
    w.eq(m.group(1), w.after.meta['checksum'])
    w.eq(lit(m.group(2)), w.after.meta['digest'])


@line(r'metadata checksum OK \((\w+)\): (.*)')
def meta_digest_ok(w, m):
    w.eq(m.group(1), w.before.meta['checksum'])
    w.eq(lit(m.group(2)), w.before.meta['digest'])


@line('metadata section occupies a total of ' + SIZE)
def meta_total(w, m):
    w.size(m, w.after.meta['end'] - w.after.meta['pos'])


@line(r'max_app_chunks was set to: (-?\d+)')
def max_app(w, m):
    w.eq(int(m.group(1)), w.after.h['max_app'])


@line(r'max_app_chunks is (a callable|an int)')
def max_app_kind(w, m):
    if w.max_app:
        w.eq(m.group(1) == 'an int', w.max_app[0] == 'int')


@line(r'max_app_chunks was too large, setting to max value: (\d+)')
def max_app_large(w, m):
    w.eq(int(m.group(1)), w.after.h['max_app'])
    w.eq(w.after.h['max_app'] + w.after.h['nchunks'], ref.MAXI64)


@line(r'max_app_chunks will be silently ignored')
def max_app_ignored(w, m):
    w.eq(w.after.h['max_app'], 0)


@line(r'metadata_args will be silently ignored')
def meta_ignored(w, m):
    w.eq(w.after.h['metadata'], False)


@line(r"Handle chunk '(\d+)' ?(\(last\))?")
def handle(w, m):
    i, n = int(m.group(1)), w.split[0]
    w.eq(i, len(w.handled['put']))
    w.eq(bool(m.group(2)), i == n - 1)
    w.handled['put'].append(i)


@line(r"decompressing chunk '(\d+)' ?(\(last\))?")
def handle_read(w, m):
    i, n = int(m.group(1)), len(w.before.chunks)
    w.eq(i, len(w.handled['get']))
    # which chunk is the last need not be known
    w.true(i == n - 1 if m.group(2) else i < n - 1 or not w.known)
    w.handled['get'].append(i)


@line('chunk handled, in: ' + SIZE + ' out: ' + SIZE)
def sizes(w, m):
    f = w.after or w.before
    i = len(w.handled['sizes'])
    w.true(i < len(f.chunks))
    g, c = m.groups(), f.chunks[i]
    w.handled['sizes'].append(i)
    w.eq((int(g[1]), int(g[3])), (c['nbytes'], c['ctbytes']) if w.after else
         (c['ctbytes'], c['nbytes']))
    w.true(is_pretty(g[0], int(g[1])) and is_pretty(g[2], int(g[3])))


@line(r'checksum (OK )?\((\w+)\): (.*)')
def digest(w, m):
    f = w.before if m.group(1) else w.after
    w.eq(m.group(2), f.h['checksum'])
    all_ = [c['digest'] for c in f.chunks]
    if w.before is not None and w.after is not None:
        all_ = all_[len(w.before.chunks) - 1:]
    w.handled['digests'].append(lit(m.group(3)))
    # in the order of the file
    it = iter(all_)
    w.true(all(any(x == y for y in it) for x in w.handled['digests']),
           true=core.short(all_))


@line('no checksum')
def no_digest(w, m):
    w.eq(w.after.h['checksum'], 'None')


@line(r"Writing '(\d+)' offsets: '(.*)'")
def writing(w, m):
    o = lit(m.group(2))
    w.eq(len(o), int(m.group(1)))
    # all, or those that changed
    all_ = w.after.entries
    old = w.before.entries if w.before is not None else []
    fit = [i for i in range(len(all_) - len(o) + 1) if all_[i:i + len(o)] == o]
    w.true(any(i + len(o) >= w.after.h['nchunks'] and old[:i] == all_[:i] for i in fit),
           true=all_[:w.after.h['nchunks']])


@line(r'Raw offsets: (.*)')
def raw_offsets(w, m):
    b = lit(m.group(1))
    at = w.after.offsets_pos
    w.true(len(b) % 8 == 0 and any(w.new[i:i + len(b)] == b for i in range(
        at, at + 8 * len(w.after.entries) - len(b) + 1, 8)))


@line(r'Read raw offsets: (.*)')
def read_offsets(w, m):
    b = lit(m.group(1))
    w.eq(b, w.old[w.before.offsets_pos:w.before.offsets_pos + len(b)])


@line(r'Offsets: (\[.*\])')
def offsets(w, m):
    o = lit(m.group(1))
    w.eq(o, w.before.entries[:w.before.h['nchunks']])


@line(r'blosc_header: (?:OrderedDict\()?(.*?)\)?')
def blosc_header(w, m):
    d = dict(lit(m.group(1)))
    w.true(any(all(d[k] == c[k] for k in d) for c in w.before.chunks))


@line(r'using (\d+) thread(s?)')
def threads(w, m):
    w.eq(int(m.group(1)), w.nthreads or blosc.ncores)
    w.eq(bool(m.group(2)), int(m.group(1)) != 1)
    if w.used:
        # and they are
        w.eq(int(m.group(1)), w.used)
        w.ctx.event('threads_used')


def leads_to(w, said, name):
    """From where the command runs, both names lead to the same file."""
    w.true(name is not None and os.path.realpath(os.path.join(w.dir, said)) ==
           os.path.realpath(os.path.join(w.dir, name)), said=said, true=name)


@line(r"(input|output|original|new) file is: '(.*)'")
def names(w, m):
    leads_to(w, m.group(2), w.names.get(m.group(1)))


@line(r"overwriting existing file: '(.*)'")
def overwriting(w, m):
    leads_to(w, m.group(1), w.names.get('output'))
    w.true(w.existed)


@line(r'getting ready for (\w+)')
def ready(w, m):
    w.eq(m.group(1), w.task)


@line('done')
def done(w, m):
    w.true(w.ok)
    w.handled['done'].append(1)


BLOCKS = {'BloscArgs': lambda w: w.blosc, 'BloscpackArgs': lambda w: w.bpack,
          'MetadataArgs': lambda w: w.margs,
          'BloscpackHeader': lambda w: head_of(w.after or w.before),
          'MetadataHeader': lambda w: meta_of(w.before)}


def judge(w, lines):
    """Every line that is understood has to be true."""
    ctx, n = w.ctx, 0
    block = None
    for l in lines:
        w.line = l
        if block is not None and re.match(r' {4}\w+: ', l):
            k, v = l.strip().split(': ', 1)
            want = block.get(k) if block else None
            if block and k in block:
                field(w, v, want)
            n += 1
            continue
        block = None
        if l.endswith(':') and l[:-1] in BLOCKS:
            block = BLOCKS[l[:-1]](w) or {}
            ctx.event('line:' + l[:-1])
            continue
        for pat, fn, name in LINES:
            m = pat.match(l)
            if m:
                fn(w, m)
                ctx.event('line:' + name)
                n += 1
                break
        else:
            ctx.event('other_lines')
    ctx.event('lines', n)
    # all or none
    w.line = lines[-8:]
    if w.handled['put']:
        w.eq(len(w.handled['put']), w.split[0])
    if w.handled['get']:
        w.eq(len(w.handled['get']), len(w.before.chunks))
    if w.handled['sizes']:
        w.eq(len(w.handled['sizes']), len((w.after or w.before).chunks))
    return n


def field(w, v, want):
    if v.startswith('<'):
        return
    m = re.match(SIZE + r'\Z', v)
    if m:
        w.size(m, want)
    else:
        w.eq(lit(v), want)


def settings(w, s):
    """The settings that an operation works with, as far as they are plain values."""
    w.blosc = dict(s['blosc'] or dict(typesize=8, clevel=7, shuffle=True, cname='blosclz'))
    b = s['bpack'] or {}
    w.max_app = b.get('max_app') or ('default', None)
    w.bpack = dict(offsets=b.get('offsets', True), checksum=b.get('checksum', 'adler32'))
    if w.max_app[0] == 'int':
        w.bpack['max_app_chunks'] = w.max_app[1]
    m = s['ma'] or {}
    w.margs = dict(magic_format=b'JSON', meta_checksum=m.get('meta_checksum', 'adler32'),
                   meta_codec=m.get('meta_codec', 'zlib'), meta_level=m.get('meta_level', 6))
    if m.get('max_meta', ('x',))[0] == 'int':
        w.margs['max_meta_size'] = m['max_meta'][1]


def level(ctx):
    l = ctx.rng.choice(['DEBUG'] * 4 + ['VERBOSE', 'NORMAL'])
    ctx.note['level'] = l
    ctx.event('level:' + l)
    return l


def heard(ctx, l, w, r):
    """The lines of an operation at a level."""
    res, out, err = r
    ctx.check(res[0] == 'ok', 'failed: %s' % core.short(res[1]), note=ctx.note)
    ctx.check(not err, 'wrote to the standard error', err=err, note=ctx.note)
    if l == 'NORMAL':
        ctx.check(not out, 'said something although nothing was asked', out=out[:500],
                  note=ctx.note)
        return 0
    return judge(w, lines_of(ctx, out, log.PREFIX))


def random_job(ctx):
    rng = ctx.rng
    size, chunk = gen.size_and_chunk(rng, 12000)
    if size // chunk > 60:
        chunk = size // 60 + 1
    if rng.random() < 0.15:
        size, chunk = rng.choice([1, 1024, 1500, 2 ** 20 - 1, 2 ** 20, 3 * 2 ** 20 + 5]), '1M'
    elif rng.random() < 0.1:
        chunk = rng.choice(['1K', '0.5K', '2M', '100B'])
    data = gen.data(rng, size)
    s = ops.random_spec(rng, chunk)
    ctx.note.update(size=size, spec=s)
    return data, s


def asked(c):
    return int(float(c[:-1]) * UNITS[c[-1]]) if isinstance(c, str) else c


def case_pack(ctx):
    rng = ctx.rng
    data, s = random_job(ctx)
    l = level(ctx)
    op = rng.choice(['file', 'bytes_file', 'bytes', 'bytes', 'fp', 'ndarray', 'ndarray_file',
                     'memory'])
    ctx.note['op'] = op
    w = Facts(ctx)
    settings(w, s)
    i, o = ctx.path('in'), ctx.path('out')
    k = ops.kw(s)
    raw = data
    chunk = s['chunk']
    split = ref.split(len(data), asked(chunk))
    if op == 'file':
        ops.write(i, data)
        r = said(l, lambda: bp.pack_file_to_file(i, o, **k))
        img = ops.read(o)
    elif op == 'bytes_file':
        r = said(l, lambda: bp.pack_bytes_to_file(data, o, **k))
        img = ops.read(o)
    elif op == 'bytes':
        if rng.random() < 0.3:
            raw = rng.choice([bytearray, memoryview])(data)
        r = said(l, lambda: bp.pack_bytes_to_bytes(raw, **k))
        img = r[0][1]
    elif op in ('fp', 'memory'):
        k.pop('chunk_size', None)
        out = io.BytesIO()
        if op == 'fp':
            src = file_io.PlainFPSource(io.BytesIO(data))
        else:
            n, c, last = split
            src = ops.PlainMemorySource([data[x * c:(x + 1) * c] for x in range(n)])
        r = said(l, lambda: abstract_io.pack(src, file_io.CompressedFPSink(out), *split, **k))
        img = out.getvalue()
    else:
        a = np.frombuffer(data, 'u1')
        if len(a) % 8 == 0 and rng.random() < 0.7 and len(a):
            a = a.view('i8' if rng.random() < 0.7 else 'f4')
        k.pop('metadata', None)
        k.pop('metadata_args', None)
        sp = asked(chunk) // a.itemsize * a.itemsize or a.itemsize
        k['chunk_size'] = sp
        split = ref.split(a.nbytes, sp)
        if s['blosc'] is not None:
            w.blosc['typesize'] = a.itemsize
        else:
            w.blosc = dict(w.blosc, typesize=a.itemsize)
        w.margs = {}
        w.asked = sp
        ctx.note['dtype'] = a.dtype.str
        if op == 'ndarray':
            r = said(l, lambda: bp.pack_ndarray_to_bytes(a, **k))
            img = r[0][1]
        else:
            r = said(l, lambda: bp.pack_ndarray_to_file(a, o, **k))
            img = ops.read(o)
    ctx.check(r[0][0] == 'ok', 'failed: %s' % core.short(r[0][1]), note=ctx.note)
    w.split, w.asked = split, w.asked or asked(chunk)
    w.in_size, w.out_size = len(data), len(img)
    w.new, w.after = img, ref.parse(img)
    if heard(ctx, l, w, r):
        ctx.event('heard:pack')


def case_unpack(ctx):
    rng = ctx.rng
    data, s = random_job(ctx)
    l = level(ctx)
    op = rng.choice(['file', 'bytes_file', 'bytes', 'fp', 'ndarray', 'ndarray_file', 'foreign'])
    ctx.note['op'] = op
    w = Facts(ctx, known=True)
    i, o = ctx.path('in.blp'), ctx.path('out')
    if op.startswith('ndarray'):
        img = bp.pack_ndarray_to_bytes(np.frombuffer(data, 'u1'),
                                       blosc_args=ops.A(s['blosc']), bloscpack_args=ops.B(s['bpack']))
    else:
        img = ops.mk(data, s)
    if op == 'foreign':
        f = ref.parse(img)
        v = gen.metadata(rng)
        img = ref.build([c['raw'] for c in f.chunks], checksum=f.h['checksum'],
                        offsets=f.h['offsets'], max_app=rng.choice([0, 0, 3]),
                        typesize=f.h['typesize'], meta=ref.foreign_meta(rng, v))
    ops.write(i, img)
    if op == 'file':
        fn = lambda: bp.unpack_file_from_file(i, o)
    elif op == 'bytes_file':
        fn = lambda: bp.unpack_bytes_from_file(i)
    elif op in ('bytes', 'foreign'):
        fn = lambda: bp.unpack_bytes_from_bytes(img)
    elif op == 'fp':
        def fn():
            src = file_io.CompressedFPSource(io.BytesIO(img))
            abstract_io.unpack(src, file_io.PlainFPSink(io.BytesIO(), src.nchunks))
    elif op == 'ndarray':
        fn = lambda: bp.unpack_ndarray_from_bytes(img)
    else:
        fn = lambda: bp.unpack_ndarray_from_file(i)
    r = said(l, fn)
    w.old, w.before = img, ref.parse(img)
    w.in_size, w.out_size = len(img), len(w.before.data)
    if heard(ctx, l, w, r):
        ctx.event('heard:unpack')


def case_append(ctx):
    rng = ctx.rng
    data, s = random_job(ctx)
    while not data:
        data, s = random_job(ctx)
    s['bpack'] = dict(offsets=True, checksum=rng.choice(gen.CHECKSUMS), max_app=('int', 600))
    l = level(ctx)
    if rng.random() < 0.1:
        s['chunk'] = rng.choice(['1K', 2000])
    img = ops.mk(data, s)
    f0 = ref.parse(img)
    for _ in range(rng.choice([0, 0, 1, 2])):
        p = io.BytesIO(img)
        b = gen.data(rng, rng.choice([1, 10, f0.h['chunk_size'], 3 * f0.h['chunk_size']]))
        ap.append_fp(p, io.BytesIO(b), len(b))
        img = p.getvalue()
        f0 = ref.parse(img, by_offsets=True)
    cs = f0.h['chunk_size']
    room = cs - f0.chunks[-1]['nbytes']
    n = max(0, rng.choice([1, room, room + 1, room - 1, room + cs, room + cs + 1, room + 5 * cs,
                           rng.randrange(5000)]))
    if n > 60 * cs:
        n = 60 * cs
    new = gen.data(rng, n)
    o, i = ctx.path('o.blp'), ctx.path('new')
    ops.write(o, img)
    ops.write(i, new)
    w = Facts(ctx, before=f0, old=img)
    w.in_size = n
    ba = ops.A(gen.blosc_args(rng)) if rng.random() < 0.5 else None
    r = said(l, lambda: ap.append(o, i, ba))
    w.new = ops.read(o)
    w.after = ref.parse(w.new, by_offsets=True)
    w.split = ref.split(n - room, cs) if n > room else (0, 0, 0)
    w.asked = cs
    ctx.note.update(appended=n, room=room)
    if heard(ctx, l, w, r):
        ctx.event('heard:append')


def case_rewrite(ctx):
    rng = ctx.rng
    data, s = random_job(ctx)
    s['meta'] = gen.metadata(rng)
    s['ma'] = dict(gen.metadata_args(rng), max_meta=('int', 40000))
    l = level(ctx)
    img = ops.mk(data, s)
    f0 = ref.parse(img)
    new = gen.metadata(rng)
    if new == f0.meta['value']:
        raise core.Skip('the same metadata')
    fp = io.BytesIO(img)
    fp.seek(32)
    k = {}
    if rng.random() < 0.5:
        k['codec'] = rng.choice(['None', 'zlib', None])
    if rng.random() < 0.5:
        k['level'] = rng.choice([0, 1, 5, 9, None])
    ctx.note['overrides'] = k
    r = said(l, lambda: ap._rewrite_metadata_fp(fp, new, **k))
    w = Facts(ctx, before=f0, old=img, new=fp.getvalue())
    ctx.check(r[0][0] == 'ok', 'failed: %s' % core.short(r[0][1]), note=ctx.note)
    w.after = ref.parse(w.new)
    if heard(ctx, l, w, r):
        ctx.event('heard:rewrite')


def case_command(ctx):
    rng = ctx.rng
    d = ctx.path('w')
    os.mkdir(d)
    data, s = random_job(ctx)
    if len(data) > 100000 or not data:
        data = gen.data(rng, 777)
    at = rng.choice(['', '', 'sub/', './', 'sub/../', 'a b/', d + '/', d + '/sub/'])
    if os.path.basename(at[:-1]) in ('sub', 'a b'):
        os.mkdir(os.path.join(d, at))
    elif '..' in at:
        os.mkdir(os.path.join(d, 'sub'))
    task = rng.choice(['compression', 'compression', 'decompression', 'append'])
    flag = rng.choice(['-v', '-d', '-d'])
    w = Facts(ctx, known=True, names={}, task=task, dir=d)
    opts = [flag]
    if rng.random() < 0.5:
        w.nthreads = rng.choice([1, 2, 3, 4, 7, 8, 9, 16])
        opts += ['-n', str(w.nthreads)]
    force = rng.random() < 0.5
    if force:
        opts.append('-f')
    meta = gen.metadata(rng)
    bad = rng.random() < 0.2
    if task == 'compression':
        w.names = {'input': at + 'in', 'output': at + 'in.blp'}
        ops.write(os.path.join(d, at + 'in'), data)
        if rng.random() < 0.5:
            ops.write(os.path.join(d, at + 'in.blp'), b'old')
            w.existed = True
        ck = rng.choice(gen.CHECKSUMS)
        cs = rng.choice([None, '1K', '100B'])
        cmd = ['c', '-k', ck] + (['-z', cs] if cs else []) + \
            (['--no-offsets'] if rng.random() < 0.3 else [])
        if rng.random() < 0.5:
            import json
            ops.write(os.path.join(d, 'm.json'), json.dumps(meta).encode())
            cmd += ['--metadata', 'm.json']
        cmd.append(at + 'in')
        w.split = ref.split(len(data), asked(cs or '1M'))
        w.asked = asked(cs or '1M')
        bad = bool(w.existed and not force)
    elif task == 'decompression':
        img = ops.mk(data, s)
        w.old, w.before = img, ref.parse(img)
        if bad and w.before.h['checksum'] == 'None':
            bad = False
        if bad:
            c = w.before.chunks[-1]
            img = bytearray(img)
            img[c['end'] - 1] ^= 1
        ops.write(os.path.join(d, at + 'in.blp'), img)
        w.names = {'input': at + 'in.blp', 'output': at + 'there'}
        if rng.random() < 0.5:
            ops.write(os.path.join(d, at + 'there'), b'old')
            w.existed = True
        cmd = ['d', at + 'in.blp', at + 'there']
        bad = bad or bool(w.existed and not force)
    else:
        s['bpack'] = dict(offsets=True, checksum=rng.choice(gen.CHECKSUMS),
                          max_app=('int', 0 if bad else 600))
        s['meta'] = None
        img = ops.mk(data, s)
        w.old, w.before = img, ref.parse(img)
        cs = w.before.h['chunk_size']
        room = cs - w.before.h['last_chunk']
        n = room + rng.choice([0, 1, cs, 2 * cs + 1])
        if not n:
            n = 1
        bad = bad and n > room
        new = gen.data(rng, n)
        w.in_size, w.asked = n, cs
        w.split = ref.split(n - room, cs) if n > room else (0, 0, 0)
        ops.write(os.path.join(d, at + 'o.blp'), img)
        ops.write(os.path.join(d, at + 'new'), new)
        w.names = {'original': at + 'o.blp', 'new': at + 'new'}
        cmd = ['a', at + 'o.blp', at + 'new']
    ctx.note.update(command=opts + cmd, bad=bad)
    if rng.random() < 0.05:
        r = cli.real(opts + cmd, d)
    else:
        # as a new process has it, not as this worker does
        r = cli.forked(opts + cmd, d, before=lambda: blosc.set_nthreads(blosc.ncores),
                       after=lambda: ops.write(os.path.join(d, '.threads'),
                                               b'%d' % blosc.set_nthreads(1)))
        if os.path.exists(os.path.join(d, '.threads')):
            w.used = int(ops.read(os.path.join(d, '.threads')))
    w.ok = r.rc == 0
    ctx.check(w.ok == (not bad), 'exit %s' % r.rc, result=repr(r), note=ctx.note)
    if not w.ok:
        # what was said before is true as well, as far as it can be told
        ctx.check('done' not in r.out.replace('blpk: ', '').split('\n'),
                  'done although it failed', result=repr(r), note=ctx.note)
        ctx.event('failed_commands')
        return
    if task == 'compression':
        img = ops.read(os.path.join(d, at + 'in.blp'))
        w.new, w.after = img, ref.parse(img)
        w.in_size, w.out_size = len(data), len(img)
    elif task == 'decompression':
        w.in_size, w.out_size = len(w.old), len(w.before.data)
    else:
        w.new = ops.read(os.path.join(d, at + 'o.blp'))
        w.after = ref.parse(w.new, by_offsets=True)
    lines = lines_of(ctx, r.out, 'blpk')
    w.margs = w.blosc = w.bpack = None
    if judge(w, lines):
        ctx.event('heard:command')


# --------------------------------------------------------------- what --help says

OPTION = re.compile(r'^ +(-\w)?(?: (\S.*?))?,? ?(--[\w-]+)(?: (\S+(?: \d+\])?))?(?:  |$)')
LONG = {'compress': 'c', 'decompress': 'd', 'append': 'a', 'info': 'i'}


def options_of(text):
    """{long option: (short option, what is said of it)}"""
    r, name = {}, None
    for l in text.split('\n'):
        m = OPTION.match(l)
        if m:
            name = m.group(3)
            r[name] = [m.group(1), l[m.end():]]
        elif not re.match(r'^ {8}', l):
            name = None
        elif name:
            r[name][1] += '\n' + l
    return r


def case_help(ctx):
    rng = ctx.rng
    d = ctx.path('w')
    os.mkdir(d)

    def run(cmd, **k):
        r = cli.forked(cmd, d, before=lambda: blosc.set_nthreads(blosc.ncores), **k)
        ctx.event('help_commands')
        return r

    def told(cmd, *flags):
        r = run(cmd + [rng.choice(['-h', '--help'])])
        ctx.note.update(command=cmd)
        ctx.check(r.rc == 0 and not r.err, 'the help is not printed', result=repr(r))
        return r.out, options_of(r.out)

    def fact(cond, what, **k):
        ctx.event('help_facts')
        ctx.check(cond, what, note=ctx.note, **k)

    what = ['main', 'version', 'defaults', 'codecs', 'checksums', 'ranges', 'same', 'flags',
            'append', 'threads'][ctx.number % 10]
    ctx.note['what'] = what
    ctx.event('help:' + what)
    # several chunks of the default size, and typed content
    data = np.arange(rng.randrange(150000, 400000), dtype=rng.choice(['<i8', '<f8'])).tobytes() \
        + gen.data(rng, rng.randrange(1, 5000))
    ops.write(os.path.join(d, 'in'), data)

    def packed(*args, **k):
        """The image of a command that has to succeed; None if it is refused."""
        # the blocks of several threads come in any order
        r = run(list(k.get('opts', ['-n', '1'])) + ['-f', k.get('cmd', 'c')] + list(args)
                + ['in', 'out.blp'])
        if r.rc:
            ctx.check((r.out + r.err).strip() != '', 'failed without an error', result=repr(r))
            return None
        img = ops.read(os.path.join(d, 'out.blp'))
        os.unlink(os.path.join(d, 'out.blp'))
        return img

    if what == 'main':
        text, opts = told([])
        for name in opts:
            fact(name in ('--help', '--version') or packed(opts=given(name, rng)) is not None,
                 'an option of the help is not accepted', option=name)
        subs = re.findall(r'^    (\w+) {2,}(.*)$', text, re.M)
        subs = [(a, b) for a, b in subs if a in LONG or a in LONG.values()]
        fact(sorted(a for a, b in subs) == sorted(list(LONG) + list(LONG.values())),
             'the commands of the help', said=subs)
        for a, b in subs:
            m = re.match(r"alias for '(\w+)'", b)
            if m:
                x, y = told([a])[0], told([m.group(1)])[0]
                fact(x.split() == [a if w == m.group(1) else w for w in y.split()]
                     or sorted(options_of(x).items()) == sorted(options_of(y).items()),
                     'an alias with another help', alias=a, of=m.group(1))
    elif what == 'version':
        r = run(['--version'])
        ctx.check(r.rc == 0 and not r.err, 'the version is not printed', result=repr(r))
        lib = blosc.BLOSC_VERSION_STRING
        lib = lib.decode() if isinstance(lib, bytes) else lib
        for name, v in (('bloscpack', bp.__version__), ('python-blosc', blosc.version.__version__),
                        ('blosc', lib)):
            m = re.search(r"(?:^|\s)%s: *'([^']*)'" % name, r.out)
            if m:
                fact(m.group(1) == v, 'a version', of=name, said=m.group(1), true=v)
    elif what == 'defaults':
        text, opts = told([rng.choice(['c', 'compress'])])
        plain = packed()
        fact(plain is not None and ref.parse(plain).data == data, 'packed with the defaults')
        for name in sorted(opts):
            m = re.search(r'\(default: ([^)]*)\)', opts[name][1])
            if m:
                fact(packed(name, m.group(1)) == plain, 'a default that is not the default',
                     option=name, said=m.group(1))
                ctx.event('default:' + name.lstrip('-'))
    elif what in ('codecs', 'checksums'):
        name = '--codec' if what == 'codecs' else '--checksum'
        text, opts = told([rng.choice(['c', 'compress'])])
        m = re.search(r':[ \n]*([\w,\s]+?)(?:\(default|$)', opts.get(name, [0, ''])[1])
        if m:
            said_ = re.findall(r'\w+', m.group(1))
            true = [x.decode() if isinstance(x, bytes) else x for x in blosc.compressor_list()] \
                if what == 'codecs' else list(gen.CHECKSUMS)
            fact(sorted(said_) == sorted(true), 'the values of the help', said=said_, true=true)
            for x in said_:
                img = packed(name, x, '-z', '300K')
                fact(img is not None, 'a value of the help is not accepted', value=x)
                f = ref.parse(img)
                fact(f.data == data, 'packed with a value of the help', value=x)
                if what == 'checksums':
                    fact(f.h['checksum'] == x, 'another checksum', value=x, true=f.h)
                else:
                    got = f.chunks[0]['flags'] >> 5
                    fact(got == {'blosclz': 0, 'lz4': 1, 'lz4hc': 1, 'zlib': 3,
                                 'zstd': 4}.get(x, got), 'another codec', value=x, true=got)
    elif what == 'ranges':
        for cmd, name, short in ((['c'], '--clevel', '-l'), ([], '--nthreads', '-n')):
            text = told(cmd)[0]
            m = re.search(r'%s \[(-?\d+), (-?\d+)\]' % name, text)
            if not m:
                continue
            a, b = int(m.group(1)), int(m.group(2))
            for v in (a, b, rng.randrange(a, b + 1), a - 1, b + 1):
                flag = [rng.choice([name, short]), str(v)]
                img = packed(*(flag if cmd else []), opts=['-n', '1'] if cmd else flag)
                fact((img is not None) == (a <= v <= b), 'the range of the help', option=name,
                     value=v, said=[a, b])
                fact(img is None or ref.parse(img).data == data, 'packed in range', value=v)
    elif what == 'same':
        # the short and the long name of an option and of a command
        cmd = rng.choice(['c', 'compress'])
        text, opts = told([cmd])
        ops.write(os.path.join(d, 'm.json'), b'{"a": 1}')
        for name in sorted(opts):
            short = opts[name][0]
            if short and name != '--help':
                v = given(name, rng)[1:]
                x, y = packed(name, *v), packed(short, *v, cmd=[c for c in ('c', 'compress')
                                                                if c != cmd][0])
                fact(x is not None and x == y, 'two names of an option', option=name, short=short,
                     value=v)
    elif what == 'flags':
        text, opts = told(['c'])
        plain = ref.parse(packed())
        for name in ('--no-offsets', '--no-shuffle'):
            if re.match(r'\s*deactivate', opts.get(name, [0, ''])[1]):
                f = ref.parse(packed(name))
                fact(f.data == data, 'packed with a flag', option=name)
                if name == '--no-offsets':
                    fact(plain.h['offsets'] and not f.h['offsets'], 'the flag', option=name)
                else:
                    fl = [g.chunks[0]['flags'] for g in (plain, f)]
                    fact(fl[0] & 1 and not fl[1] & 5, 'the flag', option=name, flags=fl)
        text = told(['d'])[1].get('--no-check-extension', [0, ''])[1]
        if 'disable checking' in text:
            ops.write(os.path.join(d, 'odd'), packed())
            r = run(['d', 'odd', 'there'])
            fact(r.rc != 0 and not os.path.exists(os.path.join(d, 'there')), 'checked', r=repr(r))
            if 'requires use of <out_file>' in text:
                r = run(['d', '-e', 'odd'])
                fact(r.rc != 0 and (r.out + r.err).strip(), 'required', r=repr(r))
            r = run(['d', '-e', 'odd', 'there'])
            fact(r.rc == 0 and ops.read(os.path.join(d, 'there')) == data, 'not checked',
                 r=repr(r))
    elif what == 'append':
        text, opts = told([rng.choice(['a', 'append'])])
        start = packed('-z', '200K')

        def appended(*args):
            ops.write(os.path.join(d, 'o.blp'), start)
            r = run(['-n', '1', 'a'] + list(args) + ['o.blp', 'in'])
            return ops.read(os.path.join(d, 'o.blp')) if r.rc == 0 else None
        plain = appended()
        fact(plain is not None and ref.parse(plain, by_offsets=True).data == data + data,
             'appended with the defaults')
        for name in sorted(opts):
            m = re.search(r'\(default: ([^)]*)\)', opts[name][1])
            if m:
                fact(appended(name, m.group(1)) == plain, 'a default that is not the default',
                     option=name, said=m.group(1))
                ctx.event('default:append ' + name.lstrip('-'))
            elif name != '--help':
                ops.write(os.path.join(d, 'm.json'), b'{"a": 1}')
                if name != '--metadata':
                    x, y = (appended(n, *given(name, rng)[1:]) for n in (name, opts[name][0]))
                    fact(x is not None and x == y, 'two names of an option', option=name)
    else:
        m = re.search(r'\(default: (\d+)', told([])[1].get('--nthreads', [0, ''])[1])
        if m:
            # the workers are bound to no processor, the threads are those of the machine
            for opts, true in ([], int(m.group(1))), (['-n', '3'], 3):
                f = os.path.join(d, '.threads')
                r = run(opts + ['-f', 'c', 'in', 'out.blp'], after=lambda: ops.write(
                    f, b'%d' % blosc.set_nthreads(1)))
                fact(r.rc == 0 and int(ops.read(f)) == true, 'the threads of the help',
                     said=true, true=ops.read(f) if r.rc == 0 else repr(r))


def given(name, rng):
    """An option with a value that differs from the default."""
    return [name] + {'--typesize': [str(rng.choice([1, 2, 4, 16]))],
                     '--clevel': [str(rng.choice([1, 3, 9]))],
                     '--codec': [rng.choice(['lz4', 'zlib'])],
                     '--chunk-size': [rng.choice(['100K', '12345', '0.5M', 'max'])],
                     '--checksum': [rng.choice(['crc32', 'md5', 'None'])],
                     '--metadata': ['m.json'],
                     '--nthreads': [str(rng.choice([1, 2, 3]))]}.get(name, [])


# --------------------------------------------------------------- what errors say

def numbers(text, pattern):
    """The groups of a pattern in a message; None if worded in another way."""
    m = re.search(pattern, text, re.S)
    return m.groups() if m else None


def case_error(ctx):
    rng = ctx.rng
    k = rng.choice(['chunk', 'chunk', 'meta', 'append', 'version', 'small', 'eof', 'short meta',
                    'range', 'range', 'range', 'args', 'last', 'length', 'magic', 'ctbytes',
                    'typesize', 'many', 'options', 'element', 'value', 'same'])
    ctx.note['error'] = k
    ctx.event('provoked:' + k)
    text = globals()['error_' + k.replace(' ', '_')](ctx, rng)
    if text:
        ctx.note['message'] = core.short(text)
        ctx.event('error:' + k)
    else:
        ctx.event('error_other')


def refused(ctx, fn):
    r = said('NORMAL', fn)
    ctx.check(r[0][0] == 'exc', 'accepted', note=ctx.note)
    return str(r[0][1])


def told(ctx, text, got, want):
    ctx.event('facts')
    ctx.check(got == want, 'an untrue message', message=text, said=core.short(got),
              true=core.short(want), note=ctx.note)
    return text


def packed(rng, **k):
    data = gen.data(rng, rng.randrange(1, 3000))
    s = ops.random_spec(rng, rng.choice([50, 500, 4000]))
    if s['bpack'] is None or s['bpack']['checksum'] == 'None' or 'checksum' in k:
        s['bpack'] = dict(offsets=True, checksum=k.get('checksum') or
                          rng.choice(gen.CHECKSUMS[1:]), max_app=('int', 100))
    if k.get('offsets'):
        s['bpack']['offsets'] = True
    if k.get('meta'):
        s['meta'] = gen.metadata(rng)
        s['ma'] = dict(meta_codec=rng.choice(['zlib', 'None']), meta_level=rng.randrange(1, 10),
                       meta_checksum=k.get('meta_checksum') or rng.choice(gen.CHECKSUMS[1:]))
    else:
        s['meta'] = s['ma'] = None
    img = ops.mk(data, s)
    return img, ref.parse(img)


def mismatch(ctx, text, img, f, at, end, name):
    g = numbers(text, r"expected: '(.*)', received: '(.*)'")
    if g is None:
        return None
    # quoted with or without the quotes of the repr
    got = [lit(x) if x[:1] == 'b' else x for x in g]
    n = ref.DIGEST_SIZE[name]
    want = [bytes(img[end - n:end]), ref.digest(name, bytes(img[at:end - n]))]
    return told(ctx, text, got, want)


def error_chunk(ctx, rng):
    img, f = packed(rng)
    c = rng.choice(f.chunks)
    img = bytearray(img)
    img[rng.randrange(c['pos'] + 16, c['end'])] ^= rng.randrange(1, 256)
    img = bytes(img)
    text = refused(ctx, lambda: bp.unpack_bytes_from_bytes(img))
    return mismatch(ctx, text, img, f, c['pos'], c['end'], f.h['checksum'])


def error_append(ctx, rng):
    img, f = packed(rng, offsets=True)
    c = f.chunks[-1]
    img = bytearray(img)
    img[rng.randrange(c['pos'] + 16, c['end'])] ^= rng.randrange(1, 256)
    fp = io.BytesIO(img)
    text = refused(ctx, lambda: ap.append_fp(fp, io.BytesIO(b'abc'), 3))
    return mismatch(ctx, text, img, f, c['pos'], c['end'], f.h['checksum'])


def error_meta(ctx, rng):
    img, f = packed(rng, meta=True)
    m = f.meta
    img = bytearray(img)
    if rng.random() < 0.5:
        x = rng.randrange(m['start'], m['start'] + m['comp_size'])
    else:
        x = rng.randrange(m['digest_pos'], m['end'])
    img[x] ^= rng.randrange(1, 256)
    img = bytes(img)
    text = refused(ctx, lambda: bp.unpack_bytes_from_bytes(img))
    g = numbers(text, r"expected: '(.*)', received: '(.*)'")
    if g is None:
        return None
    want = [img[m['digest_pos']:m['end']],
            ref.digest(m['checksum'], img[m['start']:m['start'] + m['comp_size']])]
    return told(ctx, text, [lit(x) for x in g], want)


def error_version(ctx, rng):
    img, f = packed(rng)
    v = rng.choice([0, 1, 2, 4, 7, 255])
    img = img[:4] + bytes([v]) + img[5:]
    text = refused(ctx, lambda: bp.unpack_bytes_from_bytes(img))
    g = numbers(text, r"was not '(\d+)' as expected, but '(\d+)'")
    return g and told(ctx, text, [int(x) for x in g], [3, v])


def error_small(ctx, rng):
    meta = {'a': rng.randbytes(rng.randrange(40, 300)).hex()}
    codec = rng.choice(['None', 'zlib'])
    room = rng.randrange(0, 30)
    ma = bp.MetadataArgs(meta_codec=codec, max_meta_size=rng.choice([room, lambda n: room]))
    text = refused(ctx, lambda: bp.pack_bytes_to_bytes(b'abc', metadata=meta, metadata_args=ma))
    g = numbers(text, r'required: (\d+) allocated: (\d+)')
    if g is None:
        return None
    img = bp.pack_bytes_to_bytes(b'abc', metadata=meta,
                                 metadata_args=bp.MetadataArgs(meta_codec=codec))
    return told(ctx, text, [int(x) for x in g], [ref.parse(img).meta['comp_size'], room])


def error_eof(ctx, rng):
    n = rng.randrange(0, 2000)
    more = rng.randrange(1, 2000)
    split = ref.split(n + more, rng.choice([100, 999, 10000]))
    text = refused(ctx, lambda: abstract_io.pack(
        file_io.PlainFPSource(io.BytesIO(bytes(n))), file_io.CompressedFPSink(io.BytesIO()),
        *split))
    g = numbers(text, r"expected '(\d+)' bytes of input but found '(\d+)'")
    if g is None:
        return None
    k, c, last = split
    i = n // c
    want = last if i == k - 1 else c
    return told(ctx, text, [int(x) for x in g], [want, n - i * c])


def error_short_meta(ctx, rng):
    img, f = packed(rng, meta=True, meta_checksum='None')
    m = f.meta
    cut = rng.randrange(m['start'], m['start'] + m['comp_size'])
    text = refused(ctx, lambda: bp.unpack_bytes_from_bytes(img[:cut]))
    g = numbers(text, r"expected '(\d+)' bytes of metadata but found '(\d+)'")
    return g and told(ctx, text, [int(x) for x in g], [m['comp_size'], cut - m['start']])


RANGES = {'clevel': (0, 9), 'typesize': (1, 255), 'meta_level': (0, 9), 'nchunks': (0, ref.MAXI64),
          'chunk_size': (1, blosc.BLOSC_MAX_BUFFERSIZE)}


def error_range(ctx, rng):
    far = rng.choice([1, 2, 1000, 2 ** 40, 2 ** 70])
    k = rng.choice(['clevel', 'typesize', 'header', 'header', 'chunk_size', 'max_app', 'meta'])
    lo = rng.random() < 0.5
    if k in ('clevel', 'typesize'):
        a, b = RANGES[k]
        v = a - far if lo else b + far
        if k == 'typesize' and v in (0,):
            v = -1
        name = k
        args = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')
        args[k] = v
        fn = lambda: bp.pack_bytes_to_bytes(b'abc', blosc_args=bp.BloscArgs(**args))
    elif k == 'header':
        name = rng.choice(['format_version', 'typesize', 'chunk_size', 'last_chunk', 'nchunks',
                           'max_app_chunks'])
        a, b = {'format_version': (0, 255), 'typesize': (0, 255),
                'nchunks': (-1, ref.MAXI64), 'max_app_chunks': (0, ref.MAXI64)}.get(
                    name, (-1, blosc.BLOSC_MAX_BUFFERSIZE))
        v = a - far if lo else b + far
        fn = lambda: headers.BloscpackHeader(**{name: v})
    elif k == 'chunk_size':
        name = k
        a, b = RANGES[k]
        v = a - far if lo else b + far
        fn = lambda: bargs.calculate_nchunks(10, v)
    elif k == 'max_app':
        name, v = 'max_app_chunks', -far if lo else ref.MAXI64 + far
        fn = lambda: bp.pack_bytes_to_bytes(
            b'abc', bloscpack_args=bp.BloscpackArgs(max_app_chunks=v))
    else:
        name = 'meta_level'
        v = -1 - far if lo else 9 + far
        fn = lambda: bp.pack_bytes_to_bytes(
            b'abc', metadata={}, metadata_args=bp.MetadataArgs(meta_level=v))
    text = refused(ctx, fn)
    g = numbers(text, r"'(\w+)' must be in the range (-?\d+) <= n <= (-?\d+), not '(-?\d+)'")
    if g is None:
        return None
    told(ctx, text, (g[0], int(g[3])), (name, v))
    ctx.check(not int(g[1]) <= v <= int(g[2]), 'refused although in the range that is named',
              message=text, note=ctx.note)
    if k == 'header':
        # and what is at the ends of the range is accepted, other things being fit for it
        for x in (int(g[1]), int(g[2])):
            h = {name: x}
            if name == 'max_app_chunks' and x == ref.MAXI64:
                h['nchunks'] = 0
            if name == 'max_app_chunks' and x == 0:
                h['nchunks'] = 1
            if name == 'last_chunk':
                h['chunk_size'] = x
            r = said('NORMAL', lambda: headers.BloscpackHeader(**h))
            ctx.check(r[0][0] == 'ok', 'an end of the range is refused', message=text,
                      value=x, error=core.short(r[0][1]), note=ctx.note)
    return text


def error_args(ctx, rng):
    names = [('BLOSC_ARGS', '_check_blosc_args'), ('BLOSCPACK_ARGS', '_check_bloscpack_args'),
             ('METADATA_ARGS', '_check_metadata_args')]
    n, c = rng.choice(names)
    if not hasattr(bargs, c) or not hasattr(bargs, n):
        return None
    d = dict.fromkeys(getattr(bargs, n))
    if rng.random() < 0.5:
        gone = set(rng.sample(sorted(d), rng.randrange(1, len(d) + 1)))
        for x in gone:
            del d[x]
        pat, want = r"args was missing: '(.*)'", gone
    else:
        want = set(rng.sample(['a', 'b', 'clevels'], rng.randrange(1, 3)))
        d.update(dict.fromkeys(want))
        pat = r"args had some extras: '(.*)'"
    text = refused(ctx, lambda: getattr(bargs, c)(d))
    g = numbers(text, pat)
    return g and told(ctx, text, lit(g[0]), want)


def error_last(ctx, rng):
    c = rng.randrange(0, 5000)
    l = c + rng.randrange(1, 5000)
    text = refused(ctx, lambda: headers.BloscpackHeader(chunk_size=c, last_chunk=l))
    g = numbers(text, r"'last_chunk' \((\d+)\) is larger than 'chunk_size' \((\d+)\)")
    return g and told(ctx, text, [int(x) for x in g], [l, c])


def error_length(ctx, rng):
    n = rng.choice([0, 1, 31, 33, 64, rng.randrange(100)])
    if n == 32:
        n = 30
    cls = rng.choice([headers.BloscpackHeader, headers.MetadataHeader])
    text = refused(ctx, lambda: cls.decode(b'blpk' + bytes(n - 4) if n >= 4 else bytes(n)))
    g = numbers(text, r"of length '(\d+)', not '(\d+)'")
    return g and told(ctx, text, [int(x) for x in g], [n, 32])


def error_magic(ctx, rng):
    b = rng.randbytes(4)
    img, f = packed(rng)
    text = refused(ctx, lambda: bp.unpack_bytes_from_bytes(b + img[4:]))
    g = numbers(text, r'we found: (b.*)')
    return g and told(ctx, text, lit(g[0]), b)


def error_ctbytes(ctx, rng):
    img, f = packed(rng)
    c = rng.choice(f.chunks)
    n = rng.randrange(16)
    img = img[:c['pos'] + 12] + n.to_bytes(4, 'little') + img[c['pos'] + 16:]
    text = refused(ctx, lambda: bp.unpack_bytes_from_bytes(img))
    g = numbers(text, r"invalid compressed size '(\d+)'")
    return g and told(ctx, text, int(g[0]), n)


def error_typesize(ctx, rng):
    a = np.zeros(rng.randrange(10, 400), dtype=rng.choice(['i4', 'f8', 'U5', 'i2']))
    c = rng.randrange(1, a.nbytes)
    if c % a.itemsize == 0:
        c += 1
    r = said('NORMAL', lambda: bp.pack_ndarray_to_bytes(a, chunk_size=c))
    if r[0][0] != 'exc':
        return None     # C26 has it
    text = str(r[0][1])
    g = numbers(text, r"chunk_size: '" + SIZE + r"' is not divisible ?by ?typesize: '(\d+)'")
    if g is None:
        return None
    told(ctx, text, (int(g[1]), int(g[2])), (c, a.itemsize))
    ctx.check(is_pretty(g[0], c), 'another size', message=text, note=ctx.note)
    return text


def error_many(ctx, rng):
    n = ref.MAXI64 + rng.choice([1, 2, 10 ** 6, 2 ** 70])
    c = rng.choice([1, 1, 2, 7])
    text = refused(ctx, lambda: bargs.calculate_nchunks(n * c, c))
    g = numbers(text, r"nchunks: '(\d+)' is greater than the MAX_CHUNKS: '(\d+)'")
    return g and told(ctx, text, [int(x) for x in g], [n, ref.MAXI64])


def error_options(ctx, rng):
    o = rng.choice(['0' * 7, '0' * 9, '', '0000000x', '2' * 8])
    text = refused(ctx, lambda: headers.MetadataHeader(meta_options=o).encode())
    g = numbers(text, r"of length 8, not '(.*)'")
    return g and told(ctx, text, g[0], o)


def error_element(ctx, rng):
    img, f = packed(rng, meta=rng.random() < 0.5)
    x = 1 << rng.randrange(2, 8)
    img = img[:5] + bytes([img[5] | x]) + img[6:]
    text = refused(ctx, lambda: bp.unpack_bytes_from_bytes(img))
    g = numbers(text, r'Element (\S+) was non-zero')
    return g and told(ctx, text, g[0], str(7 - (x.bit_length() - 1)))


def error_value(ctx, rng):
    """The name that does not exist is named."""
    bad = rng.choice(['nope', 'ADLER32', 'md6', 'zlib9'])
    fn, pat = rng.choice([
        (lambda: bp.pack_bytes_to_bytes(b'a', bloscpack_args=bp.BloscpackArgs(checksum=bad)),
         r"checksum '(.*)' does not exist"),
        (lambda: bp.pack_bytes_to_bytes(b'a', metadata={}, metadata_args=bp.MetadataArgs(
            meta_checksum=bad)), r"checksum '(.*)' does not exist"),
        (lambda: bp.pack_bytes_to_bytes(b'a', metadata={}, metadata_args=bp.MetadataArgs(
            meta_codec=bad)), r"codec '(.*)' does not exist")])
    text = refused(ctx, fn)
    g = numbers(text, pat)
    return g and told(ctx, text, g[0], bad)


def error_same(ctx, rng):
    """Names of files in messages of commands."""
    d = ctx.path('w')
    os.mkdir(d)
    n = rng.choice(['a b', 'in', '%s', 'x.blp'])
    if rng.random() < 0.5:
        r = cli.forked(['c', n], d)
        pat = r"input file '(.*)' does not exist"
        want = n
    else:
        ops.write(os.path.join(d, n), b'abc')
        ops.write(os.path.join(d, n + '.blp'), b'abc')
        r = cli.forked(['c', n], d)
        pat = r"output file '(.*)' exists"
        want = n + '.blp'
    ctx.check(r.rc != 0, 'succeeded', note=ctx.note)
    g = numbers(r.out + r.err, pat)
    return g and told(ctx, r.out, g[0], want)


# ------------------------------------------------------------- sizes and objects

def case_size(ctx):
    rng = ctx.rng
    from bloscpack import pretty
    for _ in range(40):
        n = rng.choice([0, 1, 1023, 1024, 1025, 2 ** 20 - 1, 2 ** 20, 2 ** 30, 2 ** 40, 2 ** 45,
                        rng.getrandbits(rng.randrange(1, 50))])
        s = pretty.double_pretty_size(n)
        m = re.match(SIZE + r'\Z', s)
        if m:
            ctx.check(int(m.group(2)) == n and is_pretty(m.group(1), n), 'an untrue size',
                      said=s, size=n)
            ctx.event('facts')
        p = pretty.pretty_size(n)
        ctx.check(is_pretty(p, n), 'an untrue size', said=p, size=n)
        # and back, to within the rounding
        back = pretty.reverse_pretty(p)
        ctx.check(abs(back - n) <= 0.00501 * UNITS[p[-1]] + 1, 'another size is read', said=p,
                  size=n, read=back)
    ctx.note['size'] = n


def case_level(ctx):
    """The levels: what is said at one is said at the next; others are refused."""
    rng = ctx.rng
    msg = rng.choice(['a', 'two\nlines', 'empty\n\nline', '%d', 'x' * 300, '\u00e4', '', '\n',
                      ' leading', 'trailing '])
    want = [l for l in msg.split('\n') if l]
    order = ['NORMAL', 'VERBOSE', 'DEBUG']
    fns = {'NORMAL': log.normal, 'VERBOSE': log.verbose, 'DEBUG': log.debug}
    old = log.PREFIX
    prefix = rng.choice([old, 'blpk', 'other', ''])
    ctx.note.update(message=msg, prefix=prefix)
    try:
        log.set_prefix(prefix)
        for l in order:
            for m in order:
                r, out, err = said(l, lambda: fns[m](msg))
                exp = ''.join('%s: %s\n' % (prefix, x) for x in want) \
                    if order.index(m) <= order.index(l) else ''
                ctx.check(r[0] == 'ok' and out == exp and not err, 'another output', level=l,
                          message=m, out=out, expected=exp)
                ctx.event('facts')
        rc = rng.choice([1, 2, 7])
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                log.error(msg, rc)
        except SystemExit as e:
            ctx.check(e.code == rc, 'another exit code', code=e.code)
        else:
            ctx.fail('an error that goes on')
        ctx.check(out.getvalue() == ''.join('%s: error: %s\n' % (prefix, x) for x in want),
                  'another output', out=out.getvalue())
    finally:
        log.set_prefix(old)
    bad = rng.choice(['normal', 'LOUD', '', None, 1, 'debug'])
    before = log.LEVEL
    ctx.must_refuse('level %r' % (bad,), log.set_level, bad)
    ctx.must_refuse('level %r' % (bad,), log.verbose, 'x', bad)
    ctx.check(log.LEVEL == before, 'a refused level changed the level')


def random_object(rng):
    k = rng.randrange(5)
    if k == 0:
        return bp.BloscArgs, gen.blosc_args(rng)
    if k == 1:
        return bp.BloscpackArgs, dict(offsets=rng.random() < 0.5,
                                      checksum=rng.choice(gen.CHECKSUMS),
                                      max_app_chunks=rng.randrange(1000))
    if k == 2:
        return bp.MetadataArgs, dict(magic_format=b'JSON', meta_checksum=rng.choice(gen.CHECKSUMS),
                                     meta_codec=rng.choice(['zlib', 'None']),
                                     meta_level=rng.randrange(10),
                                     max_meta_size=rng.randrange(10 ** 6))
    if k == 3:
        n = rng.choice([-1, 0, 1, 5, 2 ** 40])
        c = rng.choice([-1, 0, 1, 1000, 2 ** 20, blosc.BLOSC_MAX_BUFFERSIZE])
        return headers.BloscpackHeader, dict(
            format_version=rng.choice([3, 3, 0, 255]), offsets=rng.random() < 0.5,
            metadata=rng.random() < 0.5, checksum=rng.choice(gen.CHECKSUMS),
            typesize=rng.choice([0, 1, 8, 255]), chunk_size=c,
            last_chunk=rng.randrange(-1, c + 1), nchunks=n,
            max_app_chunks=0 if n == -1 else rng.choice([0, 7, 2 ** 50]))
    return headers.MetadataHeader, dict(
        magic_format=rng.choice([b'JSON', b'', b'ABCDEFGH']), meta_options='00000000',
        meta_checksum=rng.choice(gen.CHECKSUMS), meta_codec=rng.choice(['zlib', 'None']),
        meta_level=rng.randrange(10), meta_size=rng.getrandbits(rng.randrange(1, 32)),
        max_meta_size=rng.getrandbits(rng.randrange(1, 32)),
        meta_comp_size=rng.getrandbits(rng.randrange(1, 32)),
        user_codec=rng.choice([b'', b'x', b'12345678']))


def case_object(ctx):
    rng = ctx.rng
    cls, d = random_object(rng)
    ctx.note.update(object=cls.__name__, values=d)
    ctx.event('object:' + cls.__name__)
    given = dict(d)
    o = cls(**d)
    ctx.check(d == given, 'the arguments were changed', note=ctx.note)

    def same(x, want, what):
        ctx.event('facts')
        ctx.check(dict(x) == want and len(x) == len(want) and
                  all(type(x[k]) is type(want[k]) and getattr(x, k) == want[k] for k in want),
                  what, object=core.short(repr(x)), expected=want, note=ctx.note)

    same(o, d, 'another object')
    name, k = call_of(repr(o))
    ctx.check(name == cls.__name__ and k == d, 'an untrue repr', repr=repr(o), note=ctx.note)
    ctx.check(lit(str(o)) == d, 'an untrue str', str=str(o), note=ctx.note)
    lines = o.pformat(rng.choice([4, 0, 7])).split('\n')
    ctx.check(lines[0].rstrip(':') == cls.__name__, 'another name', lines=lines, note=ctx.note)
    seen = {}
    for l in lines[1:]:
        n, v = l.strip().split(': ', 1)
        m = re.match(SIZE + r'\Z', v)
        seen[n] = int(m.group(2)) if m else lit(v)
        ctx.check(not m or is_pretty(m.group(1), seen[n]), 'an untrue size', line=l,
                  note=ctx.note)
    ctx.check(seen == d, 'an untrue pformat', lines=lines, note=ctx.note)
    c = o.copy()
    same(c, d, 'another copy')
    ctx.check(c == o and c is not o and type(c) is cls, 'a copy that is not equal', note=ctx.note)
    d2 = random_object(rng)
    while d2[0] is not cls:
        d2 = random_object(rng)
    mixed = dict(d)
    for n in rng.sample(sorted(d), rng.randrange(1, len(d) + 1)):
        if rng.random() < 0.5:
            c[n] = d2[1][n]
        else:
            setattr(c, n, d2[1][n])
        mixed[n] = d2[1][n]
    same(c, mixed, 'a change that is not made')
    same(o, d, 'a change of the copy changed the original')
    ctx.check((c == o) == (mixed == d), 'equality', note=ctx.note)
    bad = rng.choice(['nope', '', 'Typesize', 'copy', '_attrs', 'attributes'])
    for what, fn in (('reading', lambda: o[bad]), ('writing', lambda: o.__setitem__(bad, 1)),
                     ('removing', lambda: o.__delitem__(sorted(d)[0]))):
        ctx.must_refuse('%s %r' % (what, bad), fn)
    ctx.check(bad not in o, 'an unknown name is in it', name=bad, note=ctx.note)
    same(o, d, 'a refused access changed it')
