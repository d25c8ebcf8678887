"""C17: inspection reports what is really in the file."""
import ast
import io
import json
import os
import re
import struct
import zlib

import blosc
from bloscpack.file_io import (CompressedFPSource, _read_beginning, _read_bloscpack_header,
                               _read_compressed_chunk_fp, _read_metadata, _read_offsets)
from bloscpack.checksums import CHECKSUMS_LOOKUP

from .. import cli, gen, hist, ops, ref

RULE = ('a case is a file under a history of appends and metadata updates; after every step all '
        'header, metadata, offsets and chunk readers and (sampled) blpk info are compared with '
        'an independent parse; evaluations counts the inspections; distinct by file image')
ASSUMPTIONS = ['blpk info prints one "key: value" line per field, sizes as "pretty (NB)"']
REQUIRE = {'inspections': 6000, 'info': 400, 'after_append': 1500, 'after_update': 300,
           'metadata': 2000, 'no_offsets': 200, 'many_offsets': 1500, 'few_offsets': 500,
           'foreign': 500, 'unknown_size': 50, 'big_values': 100, 'null_metadata': 40,
           'real_process': 8, 'disk': 300, 'sparse': 5}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    return ([('packed', n) for n in range(2000 * q)] + [('foreign', n) for n in range(900 * q)] +
            [('info', n) for n in range(200 * q)] + [('head', n) for n in range(500 * q)] +
            [('sparse', n) for n in range(12 * q)])


# ------------------------------------------------------------ expectations

def header_want(f):
    h = f.h
    return {'format_version': h['version'], 'offsets': h['offsets'],
            'metadata': h['metadata'], 'checksum': h['checksum'],
            'typesize': h['typesize'], 'chunk_size': h['chunk_size'],
            'last_chunk': h['last_chunk'], 'nchunks': h['nchunks'],
            'max_app_chunks': h['max_app']}


def meta_want(m):
    return {'magic_format': m['magic'].rstrip(b'\0'),
            'meta_options': format(m['options'], '08b'),
            'meta_checksum': m['checksum'], 'meta_codec': m['codec'],
            'meta_level': m['level'], 'meta_size': m['size'],
            'max_meta_size': m['max_size'], 'meta_comp_size': m['comp_size'],
            'user_codec': m['user'].rstrip(b'\0')}


BLOSC = ('version', 'versionlz', 'flags', 'typesize', 'nbytes', 'blocksize', 'ctbytes')


def flags_want(fl):
    return {'byte_shuffle': bool(fl & 1), 'pure_memcpy': bool(fl & 2),
            'bit_shuffle': bool(fl & 4), 'split_blocks': bool(fl & 16),
            'codec': ref.CODEC_NAME[fl >> 5]}


def eq(ctx, got, want, what):
    ctx.check(dict(got) == want and
              all(type(dict(got)[k]) is type(want[k]) for k in want),
              '%s reports something else than the file holds' % what, got=got, want=want)


class Fp(io.BytesIO):
    """Read-only view that notices writes."""

    def write(self, b):
        raise io.UnsupportedOperation('write while reading')

    writelines = truncate = write


# ----------------------------------------------------------------- readers

def readers(ctx, img, f):
    ctx.event('inspections')
    ctx.event('evaluations')
    fp = Fp(img)
    want = header_want(f)
    h = ctx.must('reading the header', _read_bloscpack_header, fp)
    eq(ctx, h, want, 'the header reader')
    ctx.check([h[k] for k in want] == [getattr(h, k) for k in want] == list(want.values()),
              'header items and attributes differ')
    ctx.check(fp.tell() == 32, 'the header reader stopped at %d' % fp.tell())
    if f.meta is not None:
        ctx.event('metadata')
        v, mh = ctx.must('reading the metadata', _read_metadata, fp)
        ctx.check(gen.same_json(v, f.meta['value']), 'the metadata reader returns other '
                  'metadata', got=v, want=f.meta['value'])
        eq(ctx, mh, meta_want(f.meta), 'the metadata header')
        ctx.check(fp.tell() == f.meta['end'], 'the metadata reader stopped at %d, not %d' %
                  (fp.tell(), f.meta['end']))
        if f.meta['value'] is None:
            ctx.event('null_metadata')
    offs = ctx.must('reading the offsets', _read_offsets, fp, h)
    n = f.h['nchunks']
    ctx.check(list(offs) == (f.entries[:n] if f.h['offsets'] else []),
              'the offsets reader returns something else', got=offs,
              want=f.entries and f.entries[:n])
    ctx.check(fp.tell() == f.first, 'the offsets reader stopped at %d, not %d' %
              (fp.tell(), f.first))
    if not f.h['offsets']:
        ctx.event('no_offsets')
    else:
        ctx.event('many_offsets' if n >= 5 else 'few_offsets')
    ck = CHECKSUMS_LOOKUP[f.h['checksum']]
    for i, c in enumerate(f.chunks[:4]):
        raw, bh, dig = ctx.must('reading chunk %d' % i, _read_compressed_chunk_fp, fp, ck)
        ctx.check(raw == c['raw'], 'the chunk reader returns another chunk %d' % i)
        eq(ctx, bh, dict((k, c[k]) for k in BLOSC), 'the Blosc header of chunk %d' % i)
        if c['digest']:
            ctx.check(dig == c['digest'], 'the chunk reader returns another digest', got=dig,
                      want=c['digest'])
        ctx.check(fp.tell() == c['end'], 'the chunk reader stopped at %d, not %d' %
                  (fp.tell(), c['end']))
    h2, v2, mh2, o2 = ctx.must('reading the beginning', _read_beginning, Fp(img))
    eq(ctx, h2, want, '_read_beginning')
    ctx.check(o2 == offs, '_read_beginning returns other offsets')
    if f.meta is not None:
        ctx.check(gen.same_json(v2, f.meta['value']), '_read_beginning returns other metadata')
        eq(ctx, mh2, meta_want(f.meta), '_read_beginning')
    else:
        ctx.check(v2 is None and mh2 is None, '_read_beginning invents metadata', got=v2)
    if n >= 0:
        s = ctx.must('opening a source', CompressedFPSource, Fp(img))
        eq(ctx, s.bloscpack_header, want, 'the source')
        ctx.check(s.nchunks == n and gen.same_json(s.metadata, v2),
                  'the source reports other metadata or chunks')
    ctx.nontrivial(img)


# -------------------------------------------------------------------- info

SIZE = re.compile(r'^(\d+(?:\.\d+)?)([BKMGT]) \((-?\d+)B\)$')
UNIT = {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}


def field(ctx, text, what):
    m = SIZE.match(text)
    if m:
        n, unit = int(m.group(3)), UNIT[m.group(2)]
        ctx.check(abs(float(m.group(1)) * unit - n) <= 0.00501 * unit + 1e-9,
                  '%s: pretty size and bytes disagree: %s' % (what, text))
        ctx.check(n == 0 or unit == max(u for u in UNIT.values() if u <= n),
                  '%s: odd unit in %s' % (what, text))
        return n
    if re.match(r"^0B \(0B\)$", text):
        return 0
    return ast.literal_eval(text)


def ordered(text):
    m = re.match(r'^(?:OrderedDict\()?([\[{].*[\]}])\)?$', text)
    return dict(ast.literal_eval(m.group(1)))


def parse_info(ctx, out):
    ls = out.split('\n')
    ctx.check(ls[-1] == '' and all(x.startswith('blpk: ') for x in ls[:-1]),
              'info printed a line without prefix', out=out)
    ls = [x[6:] for x in ls[:-1]]
    res, i = {}, 0
    try:
        while i < len(ls):
            x = ls[i]
            i += 1
            if x in ('BloscpackHeader:', 'MetadataHeader:'):
                d = {}
                while i < len(ls) and ls[i].startswith('    '):
                    k, v = ls[i].strip().split(': ', 1)
                    ctx.check(k not in d, 'info repeats ' + k)
                    d[k] = field(ctx, v, k)
                    i += 1
                res[x[:-1]] = d
            elif x == "'offsets':":
                ctx.check(ls[i].endswith(',...]'), 'info printed offsets as ' + ls[i])
                res['offsets'] = ast.literal_eval(ls[i].replace(',...]', ',]'))
                i += 1
            elif x == 'Metadata:':
                j = i
                while ls[j] != 'MetadataHeader:':
                    j += 1
                res['meta'] = ast.literal_eval('\n'.join(ls[i:j]))
                i = j
            elif x.startswith('First chunk blosc header:'):
                res['blosc'] = ordered(ls[i])
                i += 1
            elif x.startswith('First chunk blosc flags:'):
                res['flags'] = ordered(ls[i])
                i += 1
            else:
                ctx.fail('info printed an unknown line: %r' % x, out=out)
    except (ValueError, SyntaxError, IndexError, AttributeError) as e:
        ctx.fail('info printed something unreadable: %r' % e, out=out)
    return res


def info(ctx, img, f, path=None, c=None):
    rng = ctx.rng
    whole = path is None
    if whole:
        path = ops.write(ctx.path('i.blp'), img)
    os.utime(path, ns=(10 ** 18, 10 ** 18 + 123456789))
    if rng.random() < 0.05:
        r = cli.real([rng.choice(['info', 'i']), path], ctx.dir)
        ctx.event('real_process')
    else:
        r = cli.forked([rng.choice(['info', 'i']), path], ctx.dir)
    ctx.event('info')
    ctx.event('evaluations')
    ctx.check(r.rc == 0 and not r.err, 'blpk info failed: %r' % r)
    ctx.check((not whole or ops.read(path) == img) and
              os.stat(path).st_mtime_ns == 10 ** 18 + 123456789,
              'blpk info changed the file')
    got = parse_info(ctx, r.out)
    ctx.note['out'] = r.out
    eq(ctx, got['BloscpackHeader'], header_want(f), 'blpk info')
    n = f.h['nchunks']
    if f.h['offsets'] and n > 0:
        ctx.check(got.get('offsets') == f.entries[:min(n, 5)], 'blpk info reports other offsets',
                  got=got.get('offsets'), want=f.entries[:5])
    else:
        ctx.check('offsets' not in got, 'blpk info reports offsets the file does not have')
    if f.meta is not None:
        ctx.check('meta' in got and gen.same_json(got['meta'], f.meta['value']),
                  'blpk info reports other metadata', got=got.get('meta'), want=f.meta['value'])
        eq(ctx, got.get('MetadataHeader', {}), meta_want(f.meta), 'blpk info')
    else:
        ctx.check('meta' not in got and 'MetadataHeader' not in got,
                  'blpk info reports metadata the file does not have')
    c = c or ref.parse_chunk_header(img, f.first)
    eq(ctx, got.get('blosc', {}), dict((k, c[k]) for k in BLOSC), 'blpk info (first chunk)')
    eq(ctx, got.get('flags', {}), flags_want(c['flags']), 'blpk info (flags)')


# ------------------------------------------------------------------- cases

def look(ctx, img, share=0.1, path=None):
    f = ref.parse(img, decode=False)
    readers(ctx, img, f)
    if ctx.rng.random() < share:
        info(ctx, img, f, path)


def history(ctx, img, share):
    rng = ctx.rng
    m = hist.Model(img, unknown_last=True)
    t = hist.Disk(ctx, img) if rng.random() < 0.25 else hist.Mem(ctx, img)
    for _ in range(rng.choice([1, 2, 3, 4])):
        if m.meta is not None and rng.random() < 0.4:
            room = ref.parse(img, decode=False).meta['max_size']
            v = rng.choice([gen.metadata(rng), {'n': rng.randrange(9)}, None, [], 'x'])
            k = {}
            if rng.random() < 0.5:
                k['codec'] = rng.choice(['None', 'zlib'])
            if rng.random() < 0.3:
                k['level'] = rng.randrange(10)
            r = ctx.outcome(t.update, v, **k)
            if r[0] == 'exc':
                continue
            ctx.event('after_update')
            img = t.image()
            m.meta = ref.parse(img, decode=False).meta['value']
        elif m.h['offsets'] and m.h['chunk_size'] > 0:
            if m.last == -1 or not m.fits(1):
                continue
            size = hist.piece_size(rng, m)
            if not m.fits(size):
                size = 1
            ctx.must('append', t.append, gen.data(rng, size), hist.blosc_spec(rng), rng)
            ctx.event('after_append')
            img = t.image()
            m = hist.Model(img, unknown_last=True)
        else:
            return
        disk = isinstance(t, hist.Disk)
        if disk:
            ctx.event('disk')
        look(ctx, img, share, t.path if disk else None)


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind in ('head', 'sparse'):
        return globals()['case_' + kind](ctx)
    share = 0.6 if kind == 'info' else 0.04
    if kind == 'foreign' or (kind == 'info' and rng.random() < 0.3):
        img, _, _ = hist.foreign_start(ctx)
        ctx.event('foreign')
    elif rng.random() < 0.3:
        size, chunk = gen.size_and_chunk(rng)
        s = ops.random_spec(rng, chunk)
        ctx.note = dict(spec=s, size=size)
        img = ctx.must('packing', ops.mk, gen.data(rng, size), s)
    else:
        img, _, s = hist.start(ctx)
    look(ctx, img, share)
    history(ctx, img, share)
    ctx.sample(ctx.note)


def case_head(ctx):
    """Header values a small test file cannot have."""
    rng = ctx.rng
    ctx.event('big_values')
    comp = blosc.compress(gen.data(rng, rng.randrange(1, 300)), **gen.blosc_args(rng))
    n = rng.choice([-1, 1, 1, 1, 2, 7])
    ck = rng.choice(gen.CHECKSUMS)
    chunk = rng.choice([-1, ref.MAXBUF, 2 ** 30, 2 ** 30 - 1, 2 ** 20, 2 ** 20 - 1, 1023, 1024,
                        1025, 1, 0, 1536, 10 ** 9, rng.randrange(2 ** 31 - 17),
                        rng.randrange(2 ** 30, 2 ** 31 - 17), rng.randrange(1 << 24),
                        rng.randrange(1 << 14)])
    last = rng.choice([-1, 0, chunk, min(chunk, 7), chunk // 2])
    if chunk == -1:
        last = rng.choice([-1, 5, ref.MAXBUF])
    offsets = n != -1 and rng.random() < 0.6
    if -1 in (n, chunk, last):
        ctx.event('unknown_size')
    app = rng.choice([0, 1, 200]) if offsets else 0
    meta = None
    if rng.random() < 0.6:
        raw = json.dumps(rng.choice([None, {}, gen.json_value(rng)])).encode()
        codec = rng.randrange(2)
        lev = rng.randrange(10)
        pay = zlib.compress(raw, lev) if codec else raw
        user = rng.choice([b'', b'user', b'12345678', b'\0\0ab', b'\xff' * 8, b'a\0b'])
        meta = ref.meta_section(pay, len(raw), codec, lev if codec else 0,
                                rng.randrange(9), len(pay) + rng.choice([0, 1, 100]),
                                user=user)
    # offsets of a foreign writer may be unknown or far away
    vals = [rng.choice([-1, 2 ** 62, 2 ** 31, 0, 32]) for _ in range(max(n, 0))] + [-1] * app
    head = ref.header(offsets=offsets, metadata=meta is not None, checksum=ck,
                      typesize=rng.randrange(256), chunk_size=chunk, last_chunk=last,
                      nchunks=n, max_app=app)
    img = head + (meta or b'') + (struct.pack('<%dq' % len(vals), *vals) if offsets else b'')
    first = len(img)
    img += (comp + ref.digest(ck, comp)) * max(n, 1)
    f = ref.File()
    f.h = ref.parse_header(img)
    f.meta = ref.parse_meta(img, 32) if meta is not None else None
    f.entries = vals if offsets else None
    f.first = first
    f.chunks = []
    pos = first
    for _ in range(max(n, 1)):
        c = ref.parse_chunk_header(img, pos)
        c.update(pos=pos, raw=comp, digest=ref.digest(ck, comp),
                 end=pos + len(comp) + ref.DIGEST_SIZE[ck])
        f.chunks.append(c)
        pos = c['end']
    ctx.note = dict(h=f.h, meta=f.meta and f.meta['value'])
    readers(ctx, img, f)
    if rng.random() < 0.5:
        info(ctx, img, f)


def case_sparse(ctx):
    """Gigabytes reserved for metadata, which no block of the disk holds."""
    rng = ctx.rng
    comp = blosc.compress(gen.data(rng, rng.randrange(1, 300)), **gen.blosc_args(rng))
    big = rng.choice([2 ** 31, 2 ** 31 - 1, 2 ** 31 + 5, 2 ** 32 - 1, rng.randrange(2 ** 32)])
    app = rng.choice([0, 10, 1 << 20])
    meta = json.dumps(gen.json_value(rng)).encode()
    big = max(big, len(meta))
    ck = rng.choice(gen.CHECKSUMS)
    mck = rng.choice(gen.CHECKSUMS)
    head = ref.header(offsets=True, metadata=True, checksum=ck, typesize=1,
                      chunk_size=300, last_chunk=300, nchunks=1, max_app=app)
    path = ctx.path('s.blp')
    f = ref.File()
    f.h = ref.parse_header(head)
    with open(path, 'wb') as fp:
        fp.write(head)
        fp.write(struct.pack('<8sBBBBIII8s', b'JSON', 0, gen.CHECKSUMS.index(mck), 0, 0,
                             len(meta), big, len(meta), b'user') + meta)
        fp.seek(64 + big)
        fp.write(ref.digest(mck, meta))
        f.meta = dict(magic=b'JSON\0\0\0\0', options=0, checksum=mck, codec='None', level=0,
                      size=len(meta), max_size=big, comp_size=len(meta),
                      user=b'user\0\0\0\0', value=json.loads(meta.decode()))
        pos = fp.tell()
        first = pos + 8 * (1 + app)
        fp.write(struct.pack('<q', first))
        fp.seek(first)
        fp.write(comp + ref.digest(ck, comp))
    f.entries = [first]
    f.first = first
    ctx.note = dict(h=f.h, max_meta_size=big)
    ctx.event('sparse')
    info(ctx, None, f, path, ref.parse_chunk_header(comp, 0))
    os.unlink(path)
    ctx.nontrivial('sparse', big, app)
