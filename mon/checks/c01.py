"""C01: packing then unpacking is lossless through every route."""
import array
import ctypes
import mmap

import blosc
import numpy as np

import bloscpack as bp

from .. import fpmon, gen, huge, ops

RULE = ('a case packs one byte string with one argument combination through one '
        'packing route and reads it back through every matching unpacking route; '
        'non-trivial when at least one chunk is non-empty, distinct by (route, size, '
        'chunk size, checksum, offsets, codec, shuffle, typesize, metadata, threads)')
ASSUMPTIONS = ['the Blosc library is deterministic enough to decompress what it compressed',
               'the Blosc library crashes on incompressible chunks within 128K of its limit of '
               '2 ** 31 - 17 bytes: such chunks are not compressed here']
REQUIRE = {'roundtrips': 2000, 'multi_chunk': 300, 'metadata': 200, 'mem_roundtrips': 100,
           'threads>1': 30, 'empty': 5, 'exact_multiple': 50, 'huge_bytes': 2 ** 31, 'large_chunks': 4, 'plain': 40,
           'buffer_packed': 550, 'buffer_refused': 50, 'buffer_unpacked': 550}

MEM_LIMIT = 16 << 30
ROUTES = ops.PACK_IMG + ops.PACK_MEM
NAMES = dict((f.__name__, f) for f in ROUTES)


def plan(tier, seed):
    out = []
    # systematic: sizes around the boundaries for every route, default arguments
    for r in ROUTES:
        for size in (0, 1, 7, 8, 9, 99, 100, 101, 199, 200, 201, 1000):
            out.append(('edge', [r.__name__, size, 100]))
        out.append(('edge', [r.__name__, 1, 1]))
        out.append(('edge', [r.__name__, 300, 1]))
        out.append(('default', [r.__name__, 2 ** 20 + 5]))
    for cks in gen.CHECKSUMS:
        for cname in gen.CNAMES:
            for offs in (True, False):
                out.append(('settings', [cks, cname, offs]))
    for v in range(len(gen.SPECIAL_META)):
        if gen.SPECIAL_META[v] is not None:
            out.append(('meta', v))
    out.append(('many', [70000, 1]))
    out.append(('many', [66000 * 2 + 1, 2]))
    for n in range({'quick': 2, 'thorough': 12}[tier]):
        out.insert(n, ('huge', n))
    for n in range({'quick': 4, 'thorough': 60}[tier]):
        out.insert(n, ('chunk', n))
    for n in range({'quick': 7000, 'thorough': 200000}[tier]):
        out.append(('random', n))
    for n in range({'quick': 150, 'thorough': 3000}[tier]):
        out.append(('threads', n))
    for n in range({'quick': 40, 'thorough': 600}[tier]):
        out.append(('big', n))
    for n in range({'quick': 60, 'thorough': 1500}[tier]):
        out.append(('plain', n))
    for n in range({'quick': 1200, 'thorough': 30000}[tier]):
        out.append(('buffer', n))
    return out


def roundtrip(ctx, p, data, s, ups=None):
    ctx.note = dict(route=p.__name__, size=len(data), spec=s)
    im = ctx.must('packing', p, ctx.dir, data, s)
    if im.sink is not None:
        routes = ops.UNPACK_MEM
    else:
        routes = ops.UNPACK_IMG
    for u in routes if ups is None else [x for x in routes if x in ups] or routes[:1]:
        ctx.note['unpack'] = u.__name__
        got, m = ctx.must('unpacking', u, ctx.dir, im)
        ctx.event('roundtrips')
        ctx.event('evaluations')
        if im.sink is not None:
            ctx.event('mem_roundtrips')
        if got != data:
            ctx.fail('data differ after %s -> %s: %d bytes in, %d out' %
                     (p.__name__, u.__name__, len(data), len(got)))
        ctx.check(gen.same_json(m, s['meta']), 'metadata differ after %s -> %s' %
                  (p.__name__, u.__name__), got=m, want=s['meta'])
    ctx.event('pack:' + p.__name__)
    if not data:
        ctx.event('empty')
    c = s['chunk']
    if isinstance(c, int) and len(data) > c:
        ctx.event('multi_chunk')
        if len(data) % c == 0:
            ctx.event('exact_multiple')
    if s['meta'] is not None:
        ctx.event('metadata')
    if data:
        ctx.nontrivial(p.__name__, len(data), s)
    ctx.sample(ctx.note)


class Bytes(bytes):
    def __repr__(self):
        return 'mine'


def buffers(rng, data):
    """Objects that hold these bytes (of which the number is a multiple of 8): (kind, object,
    whether it is one of bytes with one byte per item)."""
    k = rng.choice(['bytes', 'subclass', 'bytearray', 'view', 'readonly view', 'part', 'mmap', 'wide view',
                    'array', 'numpy', 'numpy bytes', 'matrix', 'ctypes', 'ctypes wide', 'strided',
                    'empty dimension', 'signed view', 'char view', 'bool'])
    if k == 'bytes':
        return k, data, True
    if k == 'subclass':
        return k, Bytes(data), True
    if k == 'bytearray':
        return k, bytearray(data), True
    if k == 'view':
        return k, memoryview(bytearray(data)), True
    if k == 'readonly view':
        return k, memoryview(data), True
    if k == 'part':
        return k, memoryview(b'before' + data + b'behind')[6:6 + len(data)], True
    if k == 'mmap' and data:
        m = mmap.mmap(-1, len(data))
        m[:] = data
        return k, m, True
    if k == 'wide view':
        return k, memoryview(data).cast(rng.choice('hilqdf')), False
    if k == 'array':
        return k, array.array(rng.choice('bBhilqdf'), data), False
    if k == 'numpy':
        return k, np.frombuffer(data, rng.choice(['i1', '<i2', '>f8', 'S4', '<i8'])), False
    if k == 'numpy bytes':
        return k, np.frombuffer(data, 'u1'), False
    if k == 'matrix' and data:
        return k, memoryview(data).cast('B', (len(data) // 8, 8)), False
    if k == 'ctypes':
        return k, (ctypes.c_ubyte * len(data)).from_buffer_copy(data), False
    if k == 'ctypes wide':
        return k, (ctypes.c_int64 * (len(data) // 8)).from_buffer_copy(data), False
    if k == 'strided':
        b = bytearray(2 * len(data))
        b[::2] = data
        return k, memoryview(b)[::2], False
    if k == 'empty dimension':
        return k, np.zeros((3, 0), 'u1') if not data else np.frombuffer(data, 'u1').reshape(-1, 8), False
    if k == 'signed view':
        return k, memoryview(data).cast('b'), False
    if k == 'char view':
        return k, memoryview(data).cast('c'), False
    if k == 'bool':
        return k, np.frombuffer(data, '?'), False
    return 'bytes', data, True


def buffer(ctx):
    """Bytes come in many kinds of objects: all of their content is packed, or they are refused."""
    rng = ctx.rng
    data = gen.data(rng, 8 * rng.choice([0, 1, 2, 50, 1000, rng.randrange(5000)]))
    k, obj, simple = buffers(rng, data)
    s = ops.random_spec(rng, rng.choice([16, 1000, 4096, 10 ** 6]))
    ctx.note = dict(buffer=k, size=len(data), spec=s)
    out = ctx.path('out.blp')
    kw = ops.kw(s)
    if len(data) > 30000:
        kw['chunk_size'] = 10 ** 6
    to_file = rng.random() < 0.5
    if to_file:
        r = ctx.outcome(bp.pack_bytes_to_file, obj, out, **kw)
        if r[0] == 'ok':
            r = 'ok', ops.read(out)
    else:
        r = ctx.outcome(bp.pack_bytes_to_bytes, obj, **kw)
    if r[0] == 'exc':
        ctx.check(not simple, 'packing a %s object failed: %s' % (k, r[1:]), note=ctx.note)
        ctx.event('buffer_refused')
        img = ops.mk(data, s)
    else:
        img = r[1]
        ctx.event('buffer_packed')
        got = bp.unpack_bytes_from_bytes(img)[0]
        ctx.check(got == data, 'packing a %s object lost content: %d bytes of %d' % (k, len(got), len(data)),
                  note=ctx.note)
    if k == 'bytearray':
        obj.append(1)           # still possible: nobody holds on to it
    # and the packed ones
    pad = img + bytes(-len(img) % 8)
    k2, obj, simple = buffers(rng, pad)
    ctx.note['packed'] = k2
    r = ctx.outcome(bp.unpack_bytes_from_bytes, obj)
    if r[0] == 'exc':
        ctx.check(not simple, 'unpacking a %s object failed: %s' % (k2, r[1:]), note=ctx.note)
        ctx.event('buffer_refused')
    else:
        ctx.check(r[1][0] == data and gen.same_json(r[1][1], s['meta']),
                  'unpacking a %s object gave another content' % k2, note=ctx.note)
        ctx.event('buffer_unpacked')
    if k2 == 'bytearray':
        obj.append(1)
    ctx.event('buffer:' + k)
    ctx.event('evaluations', 2)
    ctx.nontrivial('buffer', k, k2, len(data), s)
    ctx.sample(ctx.note)


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'buffer':
        buffer(ctx)
    elif kind == 'edge':
        r, size, chunk = arg
        roundtrip(ctx, NAMES[r], gen.data(rng, size), ops.spec(chunk))
    elif kind == 'default':
        r, size = arg
        s = ops.spec()
        roundtrip(ctx, NAMES[r], gen.data(rng, size, 'mixed'), s, ups=[ops.u_file_file])
    elif kind == 'settings':
        cks, cname, offs = arg
        data = gen.data(rng, 1000)
        s = ops.spec(256, dict(typesize=8, clevel=5, shuffle=True, cname=cname),
                     dict(offsets=offs, checksum=cks, max_app=('int', 3)), {'a': [1]})
        roundtrip(ctx, rng.choice(ROUTES[:6]), data, s)
        roundtrip(ctx, rng.choice(ops.PACK_MEM), data, s)
    elif kind == 'meta':
        data = gen.data(rng, 50)
        s = ops.spec(16, meta=gen.SPECIAL_META[arg])
        for r in ROUTES:
            roundtrip(ctx, r, data, s)
    elif kind == 'many':
        size, chunk = arg
        s = ops.spec(chunk, dict(typesize=1, clevel=1, shuffle=False, cname='blosclz'),
                     dict(max_app=('int', 1)))
        roundtrip(ctx, ops.p_bytes_bytes, gen.data(rng, size, 'random'), s,
                  ups=[ops.u_bytes_bytes])
    elif kind == 'random':
        size, chunk = gen.size_and_chunk(rng)
        s = ops.random_spec(rng, chunk)
        if rng.random() < 0.1:
            s['chunk'] = rng.choice(['1K', '2K', '100B', '1.5K', '1M', '1G'])
        r = rng.choice(ROUTES)
        ups = None if rng.random() < 0.2 else \
            rng.sample(ops.UNPACK_IMG, 3) + rng.sample(ops.UNPACK_MEM, 2)
        roundtrip(ctx, r, gen.data(rng, size), s, ups)
    elif kind == 'threads':
        n = rng.randrange(2, 9)
        blosc.set_nthreads(n)
        size, chunk = gen.size_and_chunk(rng, 300000)
        chunk = rng.choice([chunk, 100000, 65536])
        roundtrip(ctx, rng.choice(ROUTES), gen.data(rng, size), ops.random_spec(rng, chunk))
        ctx.event('threads>1')
    elif kind == 'huge':
        total = rng.choice([2 ** 31, 2 ** 32]) + rng.randrange(-3, 3) * huge.BLOCK + \
            rng.choice([-1, 0, 1, 12345])
        fp, src, s = huge.make(ctx, total, rng.choice([None, {'a': 1}]),
                               offsets=rng.random() < 0.5, level=rng.choice([0, 1]),
                               checksum=rng.choice(['None', 'adler32']))
        huge.read_back(ctx, fp, src, s, 'a file of %d bytes' % fp.size())
        ctx.event('evaluations')
        ctx.nontrivial('huge', total, s)
    elif kind == 'chunk':
        # chunks up to the largest
        size = [blosc.BLOSC_MAX_BUFFERSIZE - rng.choice([0, 0, 1, 15]), 2 ** 28 + rng.randrange(9),
                2 ** 26 + 1, 2 ** rng.randrange(24, 31) + rng.randrange(2 ** 23)][arg % 4]
        total = size if size > 2 ** 29 else size + rng.choice([0, 1, size // 3, size])
        head = rng.randbytes(rng.choice([1000, 70000]))
        block = rng.choice([lambda: head + bytes(2 ** 21 - len(head) - 3),
                            lambda: rng.randbytes(2 ** 25)])()
        level = rng.choice([0, 1])
        if len(block) == 2 ** 25 and size > 2 ** 31 - 2 ** 20:
            # the Blosc library itself crashes on these if they can not be compressed
            level = 0
        huge.whole(ctx, fpmon.Repeat([block], total), size, level=level,
                   checksum=rng.choice(['None', 'adler32', 'crc32']))
        ctx.event('large_chunks')
        ctx.event('evaluations')
        ctx.nontrivial('chunk', total, size)
    elif kind == 'big':
        size = rng.randrange(2 ** 20, 6 * 2 ** 20)
        size = rng.choice([size, 2 ** 20, 2 ** 20 * 2, 2 ** 20 * 3 + 1, 2 ** 21 - 1])
        s = ops.random_spec(rng, rng.choice(['1M', '512K', 2 ** 20, 10 ** 6, '16M',
                                             blosc.BLOSC_MAX_BUFFERSIZE]))
        roundtrip(ctx, rng.choice(ROUTES), gen.data(rng, size), s,
                  ups=rng.sample(ops.UNPACK_IMG, 2) + rng.sample(ops.UNPACK_MEM, 1))
    elif kind == 'plain':
        # data that are, or nearly are, one byte over and over again
        size = max(1, 2 ** rng.randrange(12, 24) + rng.choice([-1, 0, 1, 8, 12345]))
        one = rng.choice([b'\0', b'\0', b'\xff', b' '])
        data = bytearray(one * size)
        k = rng.choice(['all', 'all', 'one', 'last', 'half'])
        if k == 'one':
            data[rng.randrange(size)] ^= 1
        elif k == 'last':
            data[-1] ^= 1
        elif k == 'half':
            data[:size // 2] = rng.randbytes(size // 2)
        s = ops.random_spec(rng, rng.choice(['1M', '4M', size, size + 1, 2 ** 24,
                                             max(size // 3, 2 ** 10)]))
        roundtrip(ctx, rng.choice(ROUTES), bytes(data), s,
                  ups=rng.sample(ops.UNPACK_IMG, 2) + rng.sample(ops.UNPACK_MEM, 1))
        ctx.event('plain')


def cleanup(ctx):
    blosc.set_nthreads(1)
