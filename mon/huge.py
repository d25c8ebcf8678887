"""Files of several gigabytes, kept as extents: positions beyond 2**31 and 2**32."""
import io
import struct

import blosc

from bloscpack.abstract_io import pack, unpack
from bloscpack.args import calculate_nchunks
from bloscpack.file_io import (CompressedFPSource, CompressedFPSink, PlainFPSink, PlainFPSource,
                               _read_beginning)

from . import fpmon, gen, ops, ref

BLOCK = 2 ** 25


def make(ctx, total, meta=None, max_app=0, offsets=True, checksum='None', level=0):
    """Pack a source of this many bytes; returns (file, source)."""
    rng = ctx.rng
    src = fpmon.Repeat([rng.randbytes(BLOCK) for _ in range(2)], total)
    fp = fpmon.Extents()
    s = ops.spec(BLOCK, dict(typesize=rng.choice([1, 8]), clevel=level, shuffle=False,
                             cname='blosclz'),
                 dict(offsets=offsets, checksum=checksum, max_app=('int', max_app)), meta)
    ctx.note = dict(total=total, spec=s)
    n, c, last = calculate_nchunks(total, BLOCK)

    def go():
        pack(PlainFPSource(src), CompressedFPSink(fp), n, c, last, **ops.kw_pack(s))
    ctx.must('packing %d bytes' % total, go)
    ctx.check(src.largest <= BLOCK, 'read %d bytes at once' % src.largest)
    ctx.event('huge_bytes', fp.size())
    return fp, src, s


def verify(ctx, fp, src, s, app, what):
    """Every position and chunk of the file, by an independent walk."""
    fp.seek(0)
    head = fp.read(4096)
    h = ref.parse_header(head)
    n, c, last = ref.split(src.n, BLOCK)
    bk = s['bpack']
    want = dict(version=3, offsets=bk['offsets'], metadata=s['meta'] is not None,
                checksum=bk['checksum'], typesize=s['blosc']['typesize'], chunk_size=c,
                last_chunk=last, nchunks=n, max_app=app)
    ctx.check(h == want, '%s: header differs: %s' % (what, h), want=want)
    pos = 32
    if s['meta'] is not None:
        m = ref.parse_meta(head, 32)
        ctx.check(gen.same_json(m['value'], s['meta']), '%s: metadata differ' % what)
        pos = m['end']
    entries = None
    if bk['offsets']:
        fp.seek(pos)
        entries = struct.unpack('<%dq' % (n + app), fp.read(8 * (n + app)))
        pos += 8 * (n + app)
    ds = ref.DIGEST_SIZE[bk['checksum']]
    seen = {}
    for i in range(n):
        if entries:
            ctx.check(entries[i] == pos, '%s: offset %d is %d, the chunk lies at %d' %
                      (what, i, entries[i], pos))
        fp.seek(pos)
        ch = ref.parse_chunk_header(fp.read(16))
        fp.seek(pos)
        raw = fp.read(ch['ctbytes'])
        dig = fp.read(ds)
        want = src.at(i * BLOCK, BLOCK)
        k = (id(raw), len(want), i % 2)
        if k not in seen:
            data = blosc.decompress(raw)
            seen[k] = (raw, data == want, ref.digest(bk['checksum'], raw))
        ctx.check(seen[k][1], '%s: chunk %d holds something else' % (what, i))
        ctx.check(dig == seen[k][2], '%s: checksum of chunk %d' % (what, i))
        pos += ch['ctbytes'] + ds
        ctx.event('huge_chunks')
        if pos > 2 ** 32:
            ctx.event('beyond_4G')
    if entries:
        ctx.check(set(entries[n:]) <= {-1}, '%s: unused offsets are not -1' % what)
    ctx.event('huge_files')
    return pos


def read_back(ctx, fp, src, s, what):
    fp.seek(0)
    sink = fpmon.Compare(src)

    def go():
        x = CompressedFPSource(fp)
        unpack(x, PlainFPSink(sink, x.nchunks))
        return x
    x = ctx.must('unpacking ' + what, go)
    ctx.check(sink.bad is None and sink.pos == src.n,
              '%s: unpacked content differs near %s (%d of %d bytes)' %
              (what, sink.bad, sink.pos, src.n))
    ctx.check(gen.same_json(x.metadata, s['meta']), '%s: metadata differ' % what)
    ctx.event('roundtrips')


def whole(ctx, src, chunk, level=0, checksum='None'):
    """There and back with this chunk size."""
    fp = fpmon.Extents()
    n, c, last = calculate_nchunks(src.n, chunk)
    ctx.note = dict(total=src.n, chunk=chunk, level=level, checksum=checksum)
    s = ops.spec(chunk, dict(typesize=ctx.rng.choice([1, 8]), clevel=level, shuffle=level > 0,
                             cname='blosclz'),
                 dict(offsets=True, checksum=checksum, max_app=('int', 0)), None)
    want = (max(1, -(-src.n // chunk)), min(chunk, src.n))
    ctx.check((n, c) == want, 'chunking is %s, not %s' % ((n, c), want))

    def go():
        pack(PlainFPSource(src), CompressedFPSink(fp), n, c, last, **ops.kw_pack(s))
    ctx.must('packing %d bytes in chunks of %d' % (src.n, chunk), go)
    read_back(ctx, fp, src, s, 'chunks of %d bytes' % chunk)


def offsets(fp):
    fp.seek(0)
    return _read_beginning(fp)[3]


def tail(src, n):
    """The next n bytes the source would have had, as a file."""
    out = fpmon.Repeat(src.blocks, src.n + n)
    out.pos = src.n
    return out


__all__ = ['make', 'whole', 'verify', 'read_back', 'offsets', 'tail', 'io']
