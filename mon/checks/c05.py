"""C05: with a checksum, damage to a chunk or its digest is always reported."""
import io

import numpy as np

from bloscpack.abstract_io import unpack
from bloscpack.memory_io import CompressedMemorySource, PlainMemorySink
from bloscpack.numpy_io import unpack_ndarray

from .. import gen, ops, ref

RULE = ('an evaluation damages the chunk area of one packed file (chunk header, payload or '
        'digest; one byte, several bytes, shifted or zeroed ranges) and reads it through '
        'one route; distinct by (file, damaged positions, values); trivial (and not '
        'counted) when the damage leaves a valid checksum')
ASSUMPTIONS = ['a damaged file whose chunks still match their checksums according to the '
               'reference parser is a collision and not judged']
REQUIRE = {'alike': 700, 'damaged': 30000, 'in_header': 2000, 'in_payload': 5000, 'in_digest': 2000,
           'last_chunk': 3000, 'middle_chunk': 2000, 'memory': 500, 'array_routes': 1500,
           'appended_files': 200, 'file_routes': 300, 'large_chunks': 500, 'empty_files': 100,
           'many_chunks': 150, 'many_in_memory': 5,
           'transformed_digests': 150}


def plan(tier, seed):
    out = []
    for ck in gen.CHECKSUMS[1:]:
        for offs in (True, False):
            for n in range({'quick': 10, 'thorough': 200}[tier]):
                out.append(('sweep', [ck, offs, n]))
    for n in range({'quick': 2000, 'thorough': 60000}[tier]):
        out.append(('multi', n))
    for n in range({'quick': 150, 'thorough': 3000}[tier]):
        out.append(('memory', n))
    for n in range({'quick': 60, 'thorough': 1000}[tier]):
        out.append(('files', n))
    for n in range({'quick': 60, 'thorough': 1000}[tier]):
        out.append(('appended', n))
    for ck in gen.CHECKSUMS[1:]:
        for n in range({'quick': 2, 'thorough': 12}[tier]):
            out.append(('many', [ck, n]))
    for ck in gen.CHECKSUMS[1:]:
        for n in range({'quick': 12, 'thorough': 120}[tier]):
            out.append(('alike', [ck, n]))
    for ck in gen.CHECKSUMS[1:]:
        for size in (5000, 40000, 70000, 140000, 300000, 1100000, 2200000):
            for n in range({'quick': 1, 'thorough': 6}[tier]):
                out.append(('large', [ck, size, n]))
    return out


def valid_anyway(img, orig, f0):
    """The reference parser finds every chunk intact (collision or no damage)."""
    try:
        ref.parse(img, decode=False)
        return True
    except ref.Bad:
        return False


def refuse(ctx, img, u, orig, f0):
    ctx.event('damaged')
    ctx.event('evaluations')
    try:
        r = u(ctx.dir, ops.Img(img))
    except Exception as e:
        ctx.event('refused:' + type(e).__name__)
        return
    if valid_anyway(img, orig, f0):
        ctx.event('collision')
        return
    n = ctx.note
    ctx.fail('damage went unreported through %s (%s)' % (u.__name__, n.get('damage')),
             result=r if not isinstance(r, tuple) else r[0][:60])


def make_file(ctx, ck=None, offs=None, array=None):
    rng = ctx.rng
    bp = gen.bloscpack_args(rng, ck or rng.choice(gen.CHECKSUMS[1:]), offs)
    bp['max_app'] = ('int', rng.choice([0, 0, 1, 3]))
    if array is None:
        array = rng.random() < 0.3
    if array:
        a = np.frombuffer(bytearray(gen.data(rng, rng.choice([0, 40, 240, 400]))), 'i4')
        img = ctx.must('packing', ops.np_bytes, ctx.dir, a,
                       dict(chunk_size=rng.choice([40, 120, 400]), bloscpack_args=ops.B(bp))).img
        routes = ops.NP_UNPACK_IMG[:3] + ops.UNPACK_IMG[2:4]
        ctx.event('array_files')
    else:
        size = rng.choice([0, 1, 20, 100, 300, 500])
        chunk = rng.choice([20, 100, 150, 500])
        s = ops.spec(chunk, gen.blosc_args(rng), bp,
                     rng.choice([None, {'m': 1}]))
        img = ctx.must('packing', ops.mk, gen.data(rng, size), s)
        routes = ops.UNPACK_IMG
    f = ref.parse(img)
    ctx.event('empty_files', not f.data)
    ctx.note = dict(checksum=bp['checksum'], nchunks=f.h['nchunks'], size=len(img),
                    array=bool(array))
    return img, f, routes


def where(ctx, f, pos):
    for i, c in enumerate(f.chunks):
        if c['pos'] <= pos < c['end']:
            part = 'header' if pos < c['pos'] + 16 else \
                'payload' if pos < c['pos'] + c['ctbytes'] else 'digest'
            ctx.event('in_' + part)
            if i == len(f.chunks) - 1:
                ctx.event('last_chunk')
            if 0 < i < len(f.chunks) - 1:
                ctx.event('middle_chunk')
            return 'chunk %d of %d, %s, byte %d' % (i, len(f.chunks), part, pos - c['pos'])
    return '?'


def route(ctx, routes):
    u = ctx.rng.choice(routes)
    if u in (ops.u_file_file, ops.u_bytes_file, ops.u_file_file_old, ops.u_bytes_file_old,
             ops.nu_file, ops.nu_file_old):
        ctx.event('file_routes')
    if u.__name__.startswith('nu_'):
        ctx.event('array_routes')
    return u


def memroutes(routes):
    return [u for u in routes if 'file' not in u.__name__]


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'sweep':
        img, f, routes = make_file(ctx, arg[0], arg[1])
        ctx.sample(ctx.note)
        fast = memroutes(routes)
        for pos in range(f.first, f.end):
            w = where(ctx, f, pos)
            vals = {1, 128, 255, rng.randrange(1, 256)}
            c0 = next(c for c in f.chunks if c['pos'] <= pos < c['end'])
            if pos < c0['pos'] + 16 or pos >= c0['pos'] + c0['ctbytes']:
                vals |= {2, 4, 8, 16, 32, 64, img[pos] or 1, img[pos] ^ 255 or 1}
            for v in vals:
                d = bytearray(img)
                d[pos] ^= v
                ctx.note['damage'] = '%s ^= %d' % (w, v)
                refuse(ctx, bytes(d), rng.choice(fast), img, f)
        ctx.nontrivial(img)
    elif kind == 'multi':
        img, f, routes = make_file(ctx)
        for _ in range(8):
            d = bytearray(img)
            c = rng.choice(f.chunks)
            k = rng.randrange(10)
            if k == 0:
                n = rng.randrange(2, 9)
                what = 'bytes'
                for p in rng.sample(range(c['pos'], c['end']), min(n, c['end'] - c['pos'])):
                    d[p] ^= rng.randrange(1, 256)
            elif k == 1:
                what = 'digest zeroed'
                d[c['pos'] + c['ctbytes']:c['end']] = bytes(len(c['digest']))
            elif k == 2:
                what = 'digest of another algorithm or random'
                d[c['pos'] + c['ctbytes']:c['end']] = rng.choice(
                    [rng.randbytes(len(c['digest'])), b'\xff' * len(c['digest'])])
            elif k == 3:
                what = 'chunk zeroed'
                d[c['pos']:c['pos'] + c['ctbytes']] = bytes(c['ctbytes'])
            elif k == 4 and len(f.chunks) > 1:
                what = 'digests of two chunks exchanged'
                c2 = rng.choice(f.chunks)
                d[c['pos'] + c['ctbytes']:c['end']] = c2['digest']
                d[c2['pos'] + c2['ctbytes']:c2['end']] = c['digest']
            elif k == 5:
                what = 'ctbytes changed'
                v = c['ctbytes'] + rng.choice([-1, 1, -16, len(c['digest']), 4, 16, 1000,
                                               -len(c['digest'])])
                d[c['pos'] + 12:c['pos'] + 16] = max(0, v).to_bytes(4, 'little')
            elif k == 6:
                what = 'nbytes changed'
                v = c['nbytes'] + rng.choice([-1, 1, 1000, -c['nbytes']])
                d[c['pos'] + 4:c['pos'] + 8] = max(0, v).to_bytes(4, 'little')
            elif k == 7:
                what = 'payload shifted by one byte'
                seg = d[c['pos'] + 16:c['pos'] + c['ctbytes']]
                d[c['pos'] + 16:c['pos'] + c['ctbytes']] = seg[1:] + seg[:1]
            elif k == 8:
                what, dig = other_digest(rng, ctx.note['checksum'], c)
                d[c['pos'] + c['ctbytes']:c['end']] = dig
                ctx.event('transformed_digests')
            else:
                what = 'one bit'
                d[rng.randrange(c['pos'], c['end'])] ^= 1 << rng.randrange(8)
            if bytes(d) == img:
                continue
            for p in range(len(img)):
                if d[p] != img[p]:
                    w = where(ctx, f, p)
                    break
            ctx.note['damage'] = what + ' at ' + w
            refuse(ctx, bytes(d), route(ctx, routes), img, f)
            ctx.nontrivial(bytes(d))
    elif kind == 'files':
        img, f, routes = make_file(ctx)
        slow = [u for u in routes if 'file' in u.__name__]
        for u in slow or routes:
            for c in f.chunks[:4] + f.chunks[-1:]:
                d = bytearray(img)
                p = rng.randrange(c['pos'], c['end'])
                d[p] ^= rng.randrange(1, 256)
                ctx.note['damage'] = where(ctx, f, p)
                ctx.event('file_routes')
                if u.__name__.startswith('nu_'):
                    ctx.event('array_routes')
                refuse(ctx, bytes(d), u, img, f)
    elif kind == 'appended':
        img, f, routes = make_file(ctx, offs=True, array=False)
        from bloscpack.append import append_fp
        fp = io.BytesIO(ctx.must('packing', ops.mk, gen.data(rng, 300), ops.spec(
            100, None, dict(checksum=ctx.note['checksum'], max_app=('int', 20)))))
        for _ in range(2):
            piece = gen.data(rng, rng.randrange(1, 300))
            fp.seek(0)
            ctx.must('append', append_fp, fp, io.BytesIO(piece), len(piece))
        img = fp.getvalue()
        f = ref.parse(img)
        for _ in range(25):
            d = bytearray(img)
            p = rng.randrange(f.first, f.end)
            d[p] ^= rng.randrange(1, 256)
            ctx.note['damage'] = where(ctx, f, p)
            ctx.event('appended_files')
            refuse(ctx, bytes(d), rng.choice(ops.UNPACK_IMG[2:7]), img, f)
    elif kind == 'alike':
        alike(ctx, arg[0])
    elif kind == 'large':
        large(ctx, *arg[:2])
    elif kind == 'many':
        many(ctx, arg[0])
    else:
        memory(ctx)


def alike(ctx, ck):
    """Digests and text with other bytes that a careless comparison takes for the same."""
    rng = ctx.rng
    sp = ops.spec(rng.choice([40, 100]), dict(typesize=1, clevel=0, shuffle=False, cname='blosclz'),
                  gen.bloscpack_args(rng, ck), None)
    img = gen.special_ends(
        lambda: ops.mk(gen.text(rng, 30).encode() + b' \n' + b'a\0' * 10 + b' ', sp),
        lambda i: ref.parse(i, decode=False).chunks[0]['digest'])
    if img is None:
        return
    f = ref.parse(img)
    ctx.note = dict(checksum=ck, nchunks=len(f.chunks), size=len(img), array=False)
    ctx.sample(ctx.note)
    for c in f.chunks:
        for a, b in (c['pos'] + c['ctbytes'], c['end']), (c['pos'] + 16, c['pos'] + c['ctbytes']):
            for what, x in gen.alike(rng, img[a:b]):
                d = img[:a] + x + img[b:]
                p = next(p for p in range(a, b) if d[p] != img[p])
                ctx.note['damage'] = what + ' at ' + where(ctx, f, p)
                ctx.event('alike')
                refuse(ctx, d, route(ctx, ops.UNPACK_IMG), img, f)
    ctx.nontrivial(img)


def other_digest(rng, ck, c):
    """A digest made from the right one, or the right one of something else."""
    g, raw, n = c['digest'], c['raw'], len(c['digest'])
    sw = b''.join(g[i:i + 2][::-1] for i in range(0, n, 2))
    other = rng.choice([x for x in gen.CHECKSUMS[1:] if x != ck])
    return rng.choice([
        ('digest reversed', g[::-1]),
        ('digest with exchanged bytes', sw),
        ('digest with exchanged halves', g[n // 2:] + g[:n // 2]),
        ('digest rotated', g[1:] + g[:1]),
        ('digest complemented', bytes(255 - x for x in g)),
        ('digest + 1', ((int.from_bytes(g, 'little') + 1) % (1 << 8 * n)).to_bytes(n, 'little')),
        ('digest of the plain data', ref.digest(ck, c['data'])),
        ('digest of the payload only', ref.digest(ck, raw[16:])),
        ('digest without the last byte of the chunk', ref.digest(ck, raw[:-1])),
        ('digest of the header only', ref.digest(ck, raw[:16])),
        ('digest of nothing', ref.digest(ck, b'')),
        ('digest in hexadecimal', g.hex().encode()[:n]),
        ('digest with a random tail', g[:n // 2] + rng.randbytes(n - n // 2)),
        ('digest with zeros behind', g[:n // 2] + bytes(n - n // 2)),
        ('digest with a random head', rng.randbytes(n - n // 2) + g[n - n // 2:]),
        ('digest without its sign bit', g[:-1] + bytes([g[-1] ^ 0x80])),
        ('digest of %s' % other, (ref.digest(other, raw) * 16)[:n])])


def many(ctx, ck):
    """Hundreds and thousands of chunks; any of them may be the damaged one."""
    rng = ctx.rng
    n = rng.choice([66, 129, 257, 300, 600, 1030, rng.randrange(100, 3000)])
    arr = rng.random() < 0.3
    size = rng.choice([4, 8, 40])
    bp = dict(checksum=ck, offsets=rng.random() < 0.7, max_app=('int', rng.choice([0, 2])))
    if arr:
        a = np.frombuffer(bytearray(gen.data(rng, n * size)), 'i4')
        img = ctx.must('packing', ops.np_bytes, ctx.dir, a,
                       dict(chunk_size=size, bloscpack_args=ops.B(bp))).img
        routes = ops.NP_UNPACK_IMG[:3] + ops.UNPACK_IMG[2:4]
    else:
        img = ctx.must('packing', ops.mk, gen.data(rng, n * size), ops.spec(
            size, dict(gen.blosc_args(rng), clevel=rng.randrange(3)), bp,
            rng.choice([None, {'m': 1}])))
        routes = ops.UNPACK_IMG
    f = ref.parse(img)
    ctx.note = dict(checksum=ck, nchunks=f.h['nchunks'], array=arr)
    n = len(f.chunks)
    some = {n - 1, n - 2, n // 2, 64, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024}
    some |= set(rng.randrange(n) for _ in range(12))
    for i in sorted(x for x in some if x < n):
        c = f.chunks[i]
        d = bytearray(img)
        d[rng.choice([rng.randrange(c['pos'], c['end']), c['end'] - 1,
                      rng.randrange(c['pos'], c['pos'] + c['ctbytes'])])] ^= rng.randrange(1, 256)
        p = next(p for p in range(len(d)) if d[p] != img[p])
        ctx.note['damage'] = where(ctx, f, p)
        ctx.event('many_chunks')
        refuse(ctx, bytes(d), rng.choice(routes[:5]), img, f)
    ctx.nontrivial(img[:64], n)


def large(ctx, ck, size):
    """Chunks larger than any buffer a checksum may be computed with: damage near
    the start, the end, around powers of two and anywhere."""
    rng = ctx.rng
    size += rng.randrange(-1000, 1000)
    k = rng.choice([1, 2])
    data = gen.data(rng, size * k - rng.randrange(1000), 'random')
    img = ctx.must('packing', ops.mk, data, ops.spec(
        size, dict(clevel=rng.choice([0, 1]), typesize=rng.choice([1, 8])),
        dict(checksum=ck, offsets=rng.random() < 0.5, max_app=('int', 1))))
    f = ref.parse(img)
    ctx.note = dict(checksum=ck, nchunks=f.h['nchunks'], size=len(img))
    c = rng.choice(f.chunks)
    n = c['end'] - c['pos']
    offs = {n - 1, n - len(c['digest']) - 1, n - 40, n - 100, n - 600, n - 1500, n - 5000,
            n // 2, 20, 1000}
    offs |= set(rng.randrange(n) for _ in range(4))
    b = 2 ** rng.randrange(12, 21)
    m = (n - len(c['digest'])) // b * b
    offs |= {b - 1, b, b + 17, m - 1, m, m + 1, 2 * b - 1, 2 * b}
    for o in sorted(x for x in offs if 0 <= x < n):
        d = bytearray(img)
        d[c['pos'] + o] ^= rng.randrange(1, 256)
        ctx.note['damage'] = where(ctx, f, c['pos'] + o)
        ctx.event('large_chunks')
        refuse(ctx, bytes(d), rng.choice([ops.u_bytes_bytes, ops.u_fp_fp] if hasattr(ops, 'u_fp_fp')
                                         else [ops.u_bytes_bytes]), img, f)
    ctx.nontrivial(img[:64], size)


def memory(ctx):
    rng = ctx.rng
    ck = rng.choice(gen.CHECKSUMS[1:])
    arr = rng.random() < 0.4
    n = 5 if rng.random() < 0.9 else rng.randrange(100, 700)
    if arr:
        a = np.frombuffer(bytearray(gen.data(rng, 80 * n)), 'i4')
        im = ctx.must('packing', ops.np_mem, ctx.dir, a,
                      dict(chunk_size=80, bloscpack_args=ops.B(dict(checksum=ck))))
    else:
        im = ctx.must('packing', rng.choice(ops.PACK_MEM), ctx.dir, gen.data(rng, 80 * n + 20),
                      ops.spec(80, gen.blosc_args(rng), dict(checksum=ck)))
    sink = im.sink
    which = range(len(sink.chunks))
    if n > 5:
        which = sorted(set(rng.sample(which, 12)) | {len(which) - 1})
        ctx.event('many_in_memory')
    for i in which:
        for part in ('chunks', 'checksums'):
            lst = getattr(sink, part)
            old = lst[i]
            k = rng.randrange(4)
            new = bytearray(old)
            if k == 0 and part == 'checksums':
                new = bytearray(b'')
            elif k == 1 and part == 'checksums':
                new = bytearray(len(old))
            else:
                new[rng.randrange(len(new))] ^= rng.randrange(1, 256)
            lst[i] = bytes(new)
            ctx.note = dict(checksum=ck, damage='memory %s[%d] of %d' %
                            (part, i, len(sink.chunks)), array=arr)
            ctx.event('damaged')
            ctx.event('memory')
            ctx.event('evaluations')
            try:
                src = CompressedMemorySource(sink)
                if arr:
                    ctx.event('array_routes')
                    unpack_ndarray(src)
                else:
                    unpack(src, PlainMemorySink(src.nchunks))
            except Exception as e:
                ctx.event('refused:' + type(e).__name__)
            else:
                ctx.fail('damage went unreported: ' + ctx.note['damage'])
            lst[i] = old
            ctx.nontrivial(ck, part, i, bytes(new))
