"""C23: header encoding and decoding are exact inverses and validate limits."""
import struct

import blosc
from bloscpack.headers import (BloscpackHeader, MetadataHeader, decode_blosc_flags,
                               decode_blosc_header)

from .. import gen, ref

RULE = ('a case judges a batch of header values, encodings, damaged encodings, random strings, '
        'refused values or chunk headers of one kind; evaluations counts judged headers; distinct '
        'by values or bytes')
ASSUMPTIONS = ['a magic string that ends in NUL cannot be told from its padding and is not used',
               'values the README only recommends (level 0 without codec, no reservation without '
               'offsets) may be accepted']
REQUIRE = {'file:valid': 8000, 'meta:valid': 8000, 'file:decoded': 2000, 'file:rejected': 8000,
           'meta:decoded': 3000, 'meta:rejected': 2500, 'file:refused': 2500,
           'meta:refused': 2500, 'changed': 3000, 'chunk_headers': 3000, 'wrong_length': 500}

MAXC = (1 << 63) - 1
MAXB = ref.MAXBUF
U32 = (1 << 32) - 1
CODECS = ['None', 'zlib']
FILE = ['format_version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size',
        'last_chunk', 'nchunks', 'max_app_chunks']
META = ['magic_format', 'meta_options', 'meta_checksum', 'meta_codec', 'meta_level',
        'meta_size', 'max_meta_size', 'meta_comp_size', 'user_codec']


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 60}[tier]
    return ([(k + ':' + w, n) for n in range(12 * q) for k in ('file', 'meta')
             for w in ('valid', 'strings', 'refused')] +
            [('chunk', n) for n in range(8 * q)])


def edge(rng, lo, hi):
    k = rng.random()
    if k < 0.4:
        return rng.choice([lo, lo + 1, lo + 2, hi, hi - 1, 0 if lo <= 0 else lo, 1, (lo + hi) // 2])
    if k < 0.7:
        v = (1 << rng.randrange(0, hi.bit_length())) + rng.choice([-1, 0, 1])
        return min(max(v, lo), hi)
    return min(hi, max(lo, rng.randrange(0, 1 << rng.randrange(1, hi.bit_length() + 1)) + lo))


def file_values(rng):
    v = {'format_version': edge(rng, 0, 255), 'offsets': rng.random() < 0.5,
         'metadata': rng.random() < 0.5, 'checksum': rng.choice(gen.CHECKSUMS),
         'typesize': edge(rng, 0, 255), 'chunk_size': edge(rng, -1, MAXB),
         'last_chunk': edge(rng, -1, MAXB), 'nchunks': edge(rng, -1, MAXC),
         'max_app_chunks': edge(rng, 0, MAXC)}
    if v['chunk_size'] != -1 and v['last_chunk'] > v['chunk_size']:
        v['last_chunk'] = rng.choice([-1, 0, v['chunk_size'], v['chunk_size']])
    if v['nchunks'] == -1:
        v['max_app_chunks'] = 0
    elif v['nchunks'] + v['max_app_chunks'] > MAXC:
        v['max_app_chunks'] = rng.choice([0, MAXC - v['nchunks']])
    return v


def magic(rng):
    k = rng.random()
    if k < 0.4:
        return rng.choice([b'', b'JSON', b'YAML', b'12345678', b'\0a', b'\0\0\0\0\0\0\0\xff',
                           b' x', b'x ', b'\n', b'JSON   ', b'\xff' * 8, b'a\0b'])
    b = rng.randbytes(rng.randrange(0, 9))
    return b.rstrip(b'\0')


def meta_values(rng):
    return {'magic_format': magic(rng),
            'meta_options': ''.join(rng.choice('01') for _ in range(8))
            if rng.random() < 0.5 else '00000000',
            'meta_checksum': rng.choice(gen.CHECKSUMS), 'meta_codec': rng.choice(CODECS),
            'meta_level': rng.randrange(0, 10), 'meta_size': edge(rng, 0, U32),
            'max_meta_size': edge(rng, 0, U32), 'meta_comp_size': edge(rng, 0, U32),
            'user_codec': magic(rng)}


def encoded(kind, v):
    """The documented bytes."""
    if kind == 'file':
        return struct.pack('<4s4B2i2q', b'blpk', v['format_version'],
                           v['offsets'] + 2 * v['metadata'], gen.CHECKSUMS.index(v['checksum']),
                           v['typesize'], v['chunk_size'], v['last_chunk'], v['nchunks'],
                           v['max_app_chunks'])
    return struct.pack('<8s4B3I8s', v['magic_format'], int(v['meta_options'], 2),
                       gen.CHECKSUMS.index(v['meta_checksum']), CODECS.index(v['meta_codec']),
                       v['meta_level'], v['meta_size'], v['max_meta_size'],
                       v['meta_comp_size'], v['user_codec'])


def decoded(kind, b):
    """The documented meaning, or None if the bytes are no valid header."""
    if kind == 'file':
        m, ver, opt, ck, ts, cs, lc, n, app = struct.unpack('<4s4B2i2q', b)
        if m != b'blpk' or opt > 3 or ck > 8 or not -1 <= cs <= MAXB or \
                not -1 <= lc <= MAXB or n < -1 or app < 0 or (n == -1 and app) or \
                (n >= 0 and n + app > MAXC) or (cs != -1 and lc != -1 and lc > cs):
            return None
        return dict(zip(FILE, (ver, bool(opt & 1), bool(opt & 2), gen.CHECKSUMS[ck], ts, cs, lc,
                               n, app)))
    m, opt, ck, codec, level, size, mx, comp, user = struct.unpack('<8s4B3I8s', b)
    if ck > 8 or codec > 1 or level > 9:
        return None
    return dict(zip(META, (m.rstrip(b'\0'), format(opt, '08b'), gen.CHECKSUMS[ck],
                           CODECS[codec], level, size, mx, comp, user.rstrip(b'\0'))))


CLS = {'file': BloscpackHeader, 'meta': MetadataHeader}
VALUES = {'file': file_values, 'meta': meta_values}
FIELDS = {'file': FILE, 'meta': META}


def fields(kind, h):
    return dict((k, getattr(h, k)) for k in FIELDS[kind])


def typed(v):
    return dict((k, (type(x), x)) for k, x in v.items())


def case(ctx, kind, arg):
    ctx.note = {'kind': kind}
    if kind == 'chunk':
        return case_chunk(ctx)
    k, what = kind.split(':')
    globals()['case_' + what](ctx, k)
    ctx.sample(ctx.note)


def case_valid(ctx, kind):
    rng = ctx.rng
    cls = CLS[kind]
    for _ in range(1000):
        v = VALUES[kind](rng)
        given = v
        if rng.random() < 0.3:
            # the rest is left to the defaults
            d = decoded(kind, CLS[kind]().encode())
            given = dict((k, x) for k, x in v.items() if rng.random() < 0.4)
            w = dict(d, **given)
            if kind == 'file' and decoded(kind, encoded(kind, w)) is None:
                given = v
            else:
                v = w
        ctx.note['values'] = v
        want = encoded(kind, v)
        h = ctx.must('%s header of %r' % (kind, given), lambda: cls(**given))
        raw = ctx.must('encoding', h.encode)
        ctx.check(isinstance(raw, bytes) and raw == want,
                  '%s header of %r encodes to %r instead of %r' % (kind, v, raw, want))
        g = ctx.must('decoding', cls.decode, raw)
        ctx.check(typed(fields(kind, g)) == typed(v), '%s header of %r decodes to %r' %
                  (kind, v, fields(kind, g)))
        ctx.check(g == h and dict(g) == v and g.encode() == raw, 'decoded header differs')
        if kind == 'file':
            t = None if v['nchunks'] < 0 else v['nchunks'] + v['max_app_chunks']
            ctx.check(h.total_prospective_chunks == t, 'total_prospective_chunks is %r for %r' %
                      (h.total_prospective_chunks, v))
        ctx.event(kind + ':valid')
        ctx.event('evaluations')
        ctx.nontrivial(want)
        if rng.random() < 0.4:
            # a copy, changed field by field, is the header of the new values
            w = VALUES[kind](rng)
            c = h.copy()
            names = list(w)
            rng.shuffle(names)
            for n in names:
                if rng.random() < 0.5:
                    c[n] = w[n]
                else:
                    setattr(c, n, w[n])
            ctx.check(c.encode() == encoded(kind, w), 'changed %s header of %r encodes to %r' %
                      (kind, w, c.encode()))
            ctx.check(h.encode() == want, 'changing a copy changed the %s header' % kind)
            ctx.event('changed')


def case_strings(ctx, kind):
    """Any 32 bytes."""
    rng = ctx.rng
    cls = CLS[kind]
    for _ in range(1500):
        k = rng.random()
        if k < 0.1:
            b = rng.randbytes(32)
        elif k < 0.2 and kind == 'file':
            b = b'blpk' + rng.randbytes(28)
        else:
            b = bytearray(encoded(kind, VALUES[kind](rng)))
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                j = rng.random()
                p = rng.randrange(32)
                if j < 0.5:
                    b[p] = rng.choice([0, 1, 2, 3, 8, 9, 10, 127, 128, 255, rng.randrange(256)])
                elif j < 0.8:
                    b[p] ^= 1 << rng.randrange(8)
                else:
                    q = rng.choice([8, 12, 16, 24])
                    b[q:q + 4] = struct.pack('<I', rng.choice([0, U32, MAXB, MAXB + 1, 1 << 31,
                                                              U32 - 1]))
            b = bytes(b)
        if rng.random() < 0.05:
            b = rng.choice([b[:rng.randrange(32)], b + rng.randbytes(rng.randrange(1, 40))])
            ctx.must_refuse('decoding %d bytes as a %s header' % (len(b), kind), cls.decode, b)
            ctx.event('wrong_length')
            continue
        want = decoded(kind, b)
        r = ctx.outcome(cls.decode, b)
        ctx.event('evaluations')
        if want is None:
            ctx.check(r[0] == 'exc', 'invalid %s header %r was decoded' % (kind, b),
                      result=r[1])
            ctx.event(kind + ':rejected')
            continue
        if r[0] == 'exc' and kind == 'file' and want['max_app_chunks'] and not want['offsets']:
            # the README asks for 0 here
            continue
        if r[0] == 'exc' and kind == 'meta' and ((want['meta_codec'] == 'None' and
                                                  want['meta_level']) or
                                                 want['meta_options'] != '0' * 8 or
                                                 want['meta_comp_size'] > want['max_meta_size']):
            continue
        ctx.check(r[0] == 'ok', 'valid %s header %r was rejected: %r' % (kind, b, r[1:]))
        ctx.check(typed(fields(kind, r[1])) == typed(want), '%s header %r decodes to %r instead '
                  'of %r' % (kind, b, fields(kind, r[1]), want))
        ctx.check(r[1].encode() == b, '%s header %r encodes back to %r' %
                  (kind, b, r[1].encode()))
        ctx.event(kind + ':decoded')
        ctx.nontrivial(b)


WRONG = [1.0, 2.5, None, '1', b'1', [], {}, (), 1j, float('nan')]


def bad_file(rng):
    v = file_values(rng)
    k = rng.randrange(11)
    if k == 0:
        v['format_version'] = rng.choice([-1, 256, 1 << 40])
    elif k == 1:
        v['typesize'] = rng.choice([-1, 256, 300, 1 << 31])
    elif k == 2:
        v['chunk_size'] = rng.choice([-2, MAXB + 1, 1 << 31, 1 << 32, -(1 << 31)])
    elif k == 3:
        v['last_chunk'] = rng.choice([-2, MAXB + 1, 1 << 31, 1 << 64])
        v['chunk_size'] = rng.choice([-1, MAXB, 5])
    elif k == 4:
        v['nchunks'] = rng.choice([-2, MAXC + 1, 1 << 64, -(1 << 63)])
        v['max_app_chunks'] = 0
    elif k == 5:
        v['max_app_chunks'] = rng.choice([-1, -2, MAXC + 1, 1 << 64])
        v['nchunks'] = rng.choice([0, 1, v['nchunks'], 10])
    elif k == 6:
        v['nchunks'] = rng.choice([MAXC, MAXC - 1, MAXC // 2 + 2, edge(rng, 1, MAXC)])
        v['max_app_chunks'] = MAXC - v['nchunks'] + rng.choice([1, 2, v['nchunks']])
    elif k == 7:
        v['nchunks'], v['max_app_chunks'] = -1, rng.choice([1, 10, MAXC])
    elif k == 8:
        v['chunk_size'] = edge(rng, 0, MAXB - 1)
        v['last_chunk'] = rng.choice([v['chunk_size'] + 1, MAXB])
    elif k == 9:
        v['checksum'] = rng.choice(['', 'none', 'MD5', 'sha3', 'adler', 'crc64', 1, None, b'md5'])
    else:
        v[rng.choice(['format_version', 'typesize', 'chunk_size', 'last_chunk', 'nchunks',
                      'max_app_chunks'])] = rng.choice(WRONG)
    return v


def bad_meta(rng):
    v = meta_values(rng)
    k = rng.randrange(7)
    if k == 0:
        v[rng.choice(['magic_format', 'user_codec'])] = rng.choice(
            [b'123456789', b'x' * 100, b'\0' * 9, 'JSON', None, 1])
    elif k == 1:
        v['meta_options'] = rng.choice(['', '0', '0' * 7, '0' * 9, '0000000x', '00000002', 0,
                                        None, b'0' * 8, '0' * 16, ' 0000000', '-0000001'])
    elif k == 2:
        v['meta_checksum'] = rng.choice(['', 'none', 'MD5', 'sha3', 'crc64', 1, None])
    elif k == 3:
        v['meta_codec'] = rng.choice(['', 'none', 'ZLIB', 'lz4', 'bz2', 1, None])
    elif k == 4:
        v['meta_level'] = rng.choice([-1, 10, 255, 256, 1 << 40])
    elif k == 5:
        v[rng.choice(['meta_size', 'max_meta_size', 'meta_comp_size'])] = rng.choice(
            [-1, U32 + 1, 1 << 40, 1 << 64, -(1 << 31)])
    else:
        v[rng.choice(['meta_level', 'meta_size', 'max_meta_size', 'meta_comp_size'])] = \
            rng.choice(WRONG)
    return v


def case_refused(ctx, kind):
    rng = ctx.rng
    for _ in range(300):
        v = (bad_file if kind == 'file' else bad_meta)(rng)
        ctx.must_refuse('%s header of %r' % (kind, v), lambda: CLS[kind](**v))
        ctx.event(kind + ':refused')
        ctx.event('evaluations')
        ctx.nontrivial(kind, repr(v))


def case_chunk(ctx):
    rng = ctx.rng
    for _ in range(600):
        if rng.random() < 0.5:
            a = gen.blosc_args(rng)
            b = blosc.compress(gen.data(rng, rng.choice([1, 100, 3000])), **a)
        else:
            b = rng.randbytes(16)
        h = ctx.must('decoding a chunk header', decode_blosc_header,
                     b[:16] if rng.random() < 0.5 else b)
        want = struct.unpack('<4B3I', b[:16])
        ctx.check(list(h.items()) == list(zip(['version', 'versionlz', 'flags', 'typesize',
                                               'nbytes', 'blocksize', 'ctbytes'], want)),
                  'chunk header %r decodes to %r' % (b[:16], h))
        fl = want[2]
        r = ctx.outcome(decode_blosc_flags, fl)
        if fl >> 5 in ref.CODEC_NAME:
            ctx.check(r == ('ok', {'byte_shuffle': bool(fl & 1), 'pure_memcpy': bool(fl & 2),
                                   'bit_shuffle': bool(fl & 4), 'split_blocks': bool(fl & 16),
                                   'codec': ref.CODEC_NAME[fl >> 5]}),
                      'chunk flags %d decode to %r' % (fl, r[1:]))
        ctx.event('chunk_headers')
        ctx.event('evaluations')
        ctx.nontrivial(b[:16])
