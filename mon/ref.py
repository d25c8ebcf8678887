"""Independent reader and writer of the bloscpack format, from the README.

Uses only struct, zlib, hashlib, json and the blosc binding; shares no code
with /repo."""
import hashlib
import json
import struct
import zlib

import blosc

CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256',
             'sha384', 'sha512']
DIGEST_SIZE = dict(zip(CHECKSUMS, [0, 4, 4, 16, 20, 28, 32, 48, 64]))
MAXI64 = 2 ** 63 - 1
MAXBUF = 2147483631       # 2**31 - 1 - 16
CODEC_CODE = {'blosclz': 0, 'lz4': 1, 'lz4hc': 1, 'snappy': 2, 'zlib': 3, 'zstd': 4}
CODEC_NAME = {0: 'blosclz', 1: 'lz4', 2: 'snappy', 3: 'zlib', 4: 'zstd'}


class Bad(Exception):
    pass


def digest(name, data):
    if name == 'None':
        return b''
    if name == 'adler32':
        return struct.pack('<I', zlib.adler32(data) & 0xffffffff)
    if name == 'crc32':
        return struct.pack('<I', zlib.crc32(data) & 0xffffffff)
    return hashlib.new(name, data).digest()


def header(version=3, options=None, offsets=True, metadata=False, checksum=1,
           typesize=8, chunk_size=0, last_chunk=0, nchunks=1, max_app=0):
    if options is None:
        options = (1 if offsets else 0) | (2 if metadata else 0)
    if not isinstance(checksum, int):
        checksum = CHECKSUMS.index(checksum)
    return struct.pack('<4sBBBBiiqq', b'blpk', version, options, checksum,
                       typesize, chunk_size, last_chunk, nchunks, max_app)


def meta_section(payload, meta_size, codec=0, level=0, checksum=1, max_size=None,
                 comp_size=None, magic=b'JSON', options=0, user=b'', fill=b'',
                 dig=None):
    """payload: stored bytes (already compressed if codec is 1)"""
    if not isinstance(checksum, int):
        checksum = CHECKSUMS.index(checksum)
    comp_size = len(payload) if comp_size is None else comp_size
    max_size = len(payload) if max_size is None else max_size
    head = struct.pack('<8sBBBBIII8s', magic, options, checksum, codec, level,
                       meta_size, max_size, comp_size, user)
    pre = (fill * (max_size // max(1, len(fill)) + 1) if fill else
           b'\x00' * max_size)[:max_size - len(payload)]
    if dig is None:
        dig = digest(CHECKSUMS[checksum], payload)
    return head + payload + pre + dig


def foreign_meta(rng, value, room=None):
    """The metadata section another implementation may write for the value:
    any JSON notation, any level, any filling."""
    k = rng.randrange(4)
    if k == 0:
        raw = json.dumps(value).encode()
    elif k == 1:
        raw = json.dumps(value, indent=rng.randrange(1, 4)).encode()
    elif k == 2:
        try:
            raw = json.dumps(value, ensure_ascii=False).encode('utf-8')
        except UnicodeEncodeError:
            raw = json.dumps(value).encode()
    else:
        raw = (' \n\t' + json.dumps(value, separators=(' ,\r\n', ' : ')) + '\n ').encode()
    codec = rng.randrange(2)
    lvl = rng.randrange(1, 10) if codec else 0
    payload = zlib.compress(raw, lvl) if codec else raw
    extra = rng.choice([0, 0, 1, 10, 500]) if room is None else room
    if room is None and rng.random() < 0.02:
        extra = rng.randrange(65000, 200000)
    fill = rng.choice([b'', b'', b'\xff', b'JSON{}', rng.randbytes(5)])
    return meta_section(payload, len(raw), codec, lvl, rng.randrange(9),
                        len(payload) + extra, fill=fill,
                        user=rng.choice([b'', b'', b'ABCD\x01\x02\x03\x04', b'\xff' * 8]))


def parse_header(b):
    if len(b) < 32:
        raise Bad('short header')
    m, ver, opt, ck, ts, cs, lc, n, app = struct.unpack('<4sBBBBiiqq', b[:32])
    if m != b'blpk':
        raise Bad('magic')
    if ver != 3:
        raise Bad('version')
    if opt & ~3:
        raise Bad('options')
    if ck > 8:
        raise Bad('checksum code')
    return {'version': ver, 'offsets': bool(opt & 1), 'metadata': bool(opt & 2),
            'checksum': CHECKSUMS[ck], 'typesize': ts, 'chunk_size': cs,
            'last_chunk': lc, 'nchunks': n, 'max_app': app}


def parse_meta(b, pos):
    if len(b) < pos + 32:
        raise Bad('short metadata header')
    magic, opt, ck, codec, level, size, mx, comp, user = struct.unpack(
        '<8sBBBBIII8s', b[pos:pos + 32])
    if ck > 8 or codec > 1:
        raise Bad('metadata codes')
    name = CHECKSUMS[ck]
    start = pos + 32
    payload = b[start:start + comp]
    if comp > mx or len(payload) != comp:
        raise Bad('metadata size')
    dpos = start + mx
    dig = b[dpos:dpos + DIGEST_SIZE[name]]
    if dig != digest(name, payload):
        raise Bad('metadata checksum')
    try:
        raw = zlib.decompress(payload) if codec == 1 else payload
    except zlib.error as e:
        raise Bad('compressed metadata: %s' % e)
    if len(raw) != size:
        raise Bad('meta_size')
    try:
        value = json.loads(raw.decode('utf-8'))
    except ValueError as e:
        raise Bad('metadata: %s' % e)
    return {'magic': magic, 'options': opt, 'checksum': name,
            'codec': ['None', 'zlib'][codec], 'level': level, 'size': size,
            'max_size': mx, 'comp_size': comp, 'user': user, 'raw': raw,
            'payload': payload, 'start': start, 'digest_pos': dpos, 'digest': dig,
            'prealloc': b[start + comp:start + mx],
            'pos': pos, 'end': dpos + DIGEST_SIZE[name],
            'value': value}


def parse_chunk_header(b, pos=0):
    if len(b) < pos + 16:
        raise Bad('short chunk header')
    v, vlz, flags, ts, nb, bs, ct = struct.unpack('<BBBBIII', b[pos:pos + 16])
    return {'version': v, 'versionlz': vlz, 'flags': flags, 'typesize': ts,
            'nbytes': nb, 'blocksize': bs, 'ctbytes': ct}


class File(object):
    pass


def parse(b, by_offsets=False, verify=True, decode=True):
    """Parse a complete file. by_offsets: locate the chunks by the offsets
    (needed after appends that leave gaps), otherwise one after the other."""
    f = File()
    f.h = parse_header(b)
    pos = 32
    f.meta = None
    if f.h['metadata']:
        f.meta = parse_meta(b, pos)
        pos = f.meta['end']
    f.offsets_pos = pos
    f.entries = None
    n = f.h['nchunks']
    if n < 0:
        raise Bad('unknown number of chunks')
    if f.h['offsets']:
        total = n + f.h['max_app']
        if len(b) < pos + 8 * total:
            raise Bad('short offsets')
        f.entries = list(struct.unpack('<%dq' % total, b[pos:pos + 8 * total]))
        pos += 8 * total
    f.first = pos
    f.chunks = []
    ds = DIGEST_SIZE[f.h['checksum']]
    for i in range(n):
        if by_offsets:
            pos = f.entries[i]
            if pos < 0:
                raise Bad('unknown offset')
        c = parse_chunk_header(b, pos)
        raw = b[pos:pos + c['ctbytes']]
        if len(raw) != c['ctbytes'] or c['ctbytes'] < 16:
            raise Bad('short chunk %d' % i)
        dig = b[pos + c['ctbytes']:pos + c['ctbytes'] + ds]
        if len(dig) != ds:
            raise Bad('short digest %d' % i)
        if verify and dig != digest(f.h['checksum'], raw):
            raise Bad('chunk checksum %d' % i)
        c.update(pos=pos, raw=raw, digest=dig, end=pos + c['ctbytes'] + ds)
        if decode:
            try:
                c['data'] = blosc.decompress(raw)
            except Exception as e:
                raise Bad('chunk %d: %s' % (i, e))
            if len(c['data']) != c['nbytes']:
                raise Bad('chunk %d length' % i)
        f.chunks.append(c)
        pos = c['end']
    f.end = pos
    f.size = len(b)
    if decode:
        f.data = b''.join(c['data'] for c in f.chunks)
    return f


def build(chunks, checksum='adler32', offsets=True, metadata=None, max_app=0,
          typesize=8, chunk_size=None, last_chunk=None, nchunks=None,
          offset_values=None, version=3, meta=None, options=None):
    """chunks: list of compressed Blosc buffers. meta: ready-made metadata section."""
    sizes = [parse_chunk_header(c)['nbytes'] for c in chunks]
    if chunk_size is None:
        chunk_size = sizes[0] if sizes else 0
    if last_chunk is None:
        last_chunk = sizes[-1] if sizes else 0
    if nchunks is None:
        nchunks = len(chunks)
    if meta is None and metadata is not None:
        raw = json.dumps(metadata).encode()
        meta = meta_section(raw, len(raw))
    head = header(version=version, offsets=offsets, metadata=meta is not None,
                  checksum=checksum, typesize=typesize, chunk_size=chunk_size,
                  last_chunk=last_chunk, nchunks=nchunks,
                  max_app=max_app if offsets else 0, options=options)
    meta = meta or b''
    total = (len(chunks) + max_app) if offsets else 0
    pos = 32 + len(meta) + 8 * total
    body, offs = [], []
    name = checksum if isinstance(checksum, str) else CHECKSUMS[checksum]
    for c in chunks:
        offs.append(pos)
        d = digest(name, c)
        body += [c, d]
        pos += len(c) + len(d)
    if offsets:
        offs = offs + [-1] * max_app
        if offset_values is not None:
            offs = offset_values(offs)
        off = struct.pack('<%dq' % total, *offs)
    else:
        off = b''
    return head + meta + off + b''.join(body)


def split(size, chunk):
    """(nchunks, chunk size, last chunk) by the documented rules."""
    if size == 0:
        return 1, 0, 0
    if chunk >= size:
        return 1, size, size
    n = -(-size // chunk)
    return n, chunk, size - chunk * (n - 1)


def conform(b, f=None, appended=False):
    """Structural conformance of a finished file; returns the parsed file or
    raises Bad with what is wrong."""
    f = parse(b, by_offsets=False)
    h = f.h
    if h['offsets']:
        n = h['nchunks']
        if f.entries[:n] != [c['pos'] for c in f.chunks]:
            raise Bad('offsets %s are not the chunk positions %s' %
                      (f.entries[:n][:8], [c['pos'] for c in f.chunks][:8]))
        if any(e != -1 for e in f.entries[n:]):
            raise Bad('unused offset is not -1: %s' % f.entries[n:][:8])
    elif h['max_app'] != 0:
        raise Bad('reservation without offsets')
    if not appended and f.end != len(b):
        raise Bad('%d stray bytes after the last chunk' % (len(b) - f.end))
    sizes = [c['nbytes'] for c in f.chunks]
    n = h['nchunks']
    if sizes != [h['chunk_size']] * (n - 1) + [h['last_chunk']]:
        raise Bad('chunk sizes %s disagree with header %s/%s' %
                  (sizes[:8], h['chunk_size'], h['last_chunk']))
    if h['last_chunk'] > h['chunk_size']:
        raise Bad('last_chunk > chunk_size')
    if f.meta is not None:
        m = f.meta
        if m['magic'] != b'JSON\0\0\0\0':
            raise Bad('magic format %r' % m['magic'])
        if m['options'] != 0:
            raise Bad('metadata options')
        if m['codec'] == 'None':
            if m['comp_size'] != m['size']:
                raise Bad('uncompressed metadata with another stored size')
            if m['level'] != 0:
                raise Bad('meta_level %d without codec' % m['level'], )
        if m['comp_size'] > m['size'] and not appended:
            raise Bad('metadata compressed although it grew')
    return f
