"""C02: arrays survive packing; nothing outside them is read."""
import os

import numpy as np

from .. import gen, npgen, ops

RULE = ('a case packs one array (generated dtype x shape x memory layout, memory lying '
        'against an inaccessible page) through one of four routes with one argument '
        'combination and restores it; distinct by (dtype, shape, layout, chunk, route); '
        'non-trivial when the array has at least one element')
ASSUMPTIONS = ['padding bytes between struct fields need not survive']
REQUIRE = {'roundtrips': 1500, 'fortran': 100, 'noncontiguous': 200, 'structured': 200,
           'padded': 50, 'bigendian': 100, 'zero_d': 30, 'empty': 30, 'multi_chunk': 200,
           'guarded': 1000, 'default_args': 50, 'object:memmap': 120,
           'object:subclass': 30, 'object:misaligned': 25, 'large_chunks': 8,
           'big_F': 6, 'big_T': 2, 'big_step': 2}

PACK = dict((f.__name__, f) for f in ops.NP_PACK_IMG + ops.NP_PACK_MEM)


def plan(tier, seed):
    out = []
    codes = npgen.BASIC + ['S1', 'S7', 'U3', 'V5', 'M8[ns]', 'm8[s]', 'M8[25s]', 'S255']
    for c in codes:
        for bo in '<>':
            for lay in ('C', 'F', 'step', 'rev', 'T', 'bcast'):
                out.append(('basic', [bo + c, lay]))
    for r in PACK:
        for k in range(12):
            out.append(('route', [r, k]))
    for n in range({'quick': 8, 'thorough': 80}[tier]):
        out.insert(n, ('large', n))
    for n in range({'quick': 20000, "thorough": 500000}[tier]):
        out.append(('random', n))
    for n in range({'quick': 60, 'thorough': 600}[tier]):
        out.append(('big', n))
    for n in range({'quick': 1200, 'thorough': 30000}[tier]):
        out.append(('object', n))
    return out


def is_padded(dt):
    if dt.subdtype is not None:
        return is_padded(dt.subdtype[0])
    if not dt.names:
        return False
    return sum(dt.fields[n][0].itemsize for n in dt.names) != dt.itemsize or \
        any(is_padded(dt.fields[n][0]) for n in dt.names)


def run(ctx, a, desc, keep, p, k, desck):
    rng = ctx.rng
    ctx.note = dict(desc, route=p.__name__, args=desck)
    base = keep[1]
    before = base.tobytes()
    flags = (a.flags.writeable, a.shape, a.strides, a.dtype)
    im = ctx.must('packing', p, ctx.dir, a, k)
    ctx.check(base.tobytes() == before and
              flags == (a.flags.writeable, a.shape, a.strides, a.dtype),
              'packing changed the input array')
    us = ops.NP_UNPACK_MEM if im.sink is not None else \
        rng.sample(ops.NP_UNPACK_IMG, 2)
    for u in us:
        b = ctx.must('unpacking', u, ctx.dir, im)
        ctx.event('roundtrips')
        ctx.event('evaluations')
        d = npgen.diff(a.view(np.ndarray), b)
        if d:
            ctx.fail('array differs after %s -> %s: %s' % (p.__name__, u.__name__, d))
        # an array of its own that can be used like any other
        f = b.flags
        ctx.check(type(b) is np.ndarray and f.writeable and f.aligned and
                  (f.c_contiguous or f.f_contiguous), 'the restored array is not an ordinary one',
                  flags=str(f), type=str(type(b)))
    ctx.event('assertions', len(us))
    if np.isfortran(a):
        ctx.event('fortran')
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        ctx.event('noncontiguous')
    if a.dtype.names:
        ctx.event('structured')
    if is_padded(a.dtype):
        ctx.event('padded')
    if '>' in a.dtype.str or (a.dtype.names and '>' in str(a.dtype.descr)):
        ctx.event('bigendian')
    if a.shape == ():
        ctx.event('zero_d')
    if a.size == 0:
        ctx.event('empty')
    else:
        ctx.event('guarded')
        ctx.nontrivial(desc, p.__name__, desck)
    ctx.event('route:' + p.__name__)
    ctx.sample(ctx.note)


class Sub(np.ndarray):
    """A subclass that has its own idea of everything Python level."""

    def __getitem__(self, i):
        raise RuntimeError('items asked for')

    def __len__(self):
        return 7

    def __iter__(self):
        return iter(())

    def __array_finalize__(self, o):
        self.extra = 1


def special(ctx):
    """Arrays that are not plain ones: (array, plain array with the same content)."""
    rng = ctx.rng
    k = rng.choice(['memmap r', 'memmap c', 'memmap r+', 'memmap F', 'matrix', 'recarray', 'subclass',
                    'readonly', 'bytes', 'mmap', 'window', 'field', 'misaligned', 'sub of memmap',
                    'diagonal', 'real', 'swapped', 'ravel'])
    ctx.event('object:' + k.split()[0])
    if k.startswith('memmap') or k == 'sub of memmap':
        p = ctx.path('map')
        n = rng.choice([(5,), (40, 30), (3, 4, 5), (5000,)])
        dt = np.dtype(rng.choice(['u1', '<i4', '>f8', 'c16', 'S3']))
        off = rng.choice([0, 0, 1, 13, 4096, 5000])
        ops.write(p, rng.randbytes(off + int(np.prod(n)) * dt.itemsize + rng.choice([0, 9])))
        mode = k.split()[1] if k in ('memmap r', 'memmap c', 'memmap r+') else 'r'
        if k == 'sub of memmap':
            mode = rng.choice(['r', 'c'])
        a = np.memmap(p, dt, mode, off, n, 'F' if k == 'memmap F' else 'C')
        if k == 'sub of memmap':
            a = a[1:][::rng.choice([1, 2, -1])]
        if mode in ('c', 'r+') and a.size and rng.random() < 0.7:
            # a change of its own, not (or not yet) in the file
            a[...] = a[..., ::-1].copy()
        if rng.random() < 0.2:
            os.unlink(p)
    elif k == 'field':
        b = np.frombuffer(bytearray(rng.randbytes(500 * 13)),
                          [('a', 'u1'), ('b', '<f8'), ('c', '>i4')])
        a = b[rng.choice('abc')]
    elif k == 'misaligned':
        a = np.frombuffer(bytearray(rng.randbytes(801)), 'u1')[1:].view('<i8')
    elif k == 'mmap':
        import mmap
        m = mmap.mmap(-1, 4096)
        m[:] = rng.randbytes(4096)
        a = np.frombuffer(m, rng.choice(['u1', '<i4']))
    elif k == 'window':
        b = np.frombuffer(bytearray(rng.randbytes(4000)), '<i4')
        a = np.lib.stride_tricks.sliding_window_view(b, rng.choice([1, 3, 50]))
    elif k in ('real', 'diagonal'):
        b = np.frombuffer(bytearray(rng.randbytes(30 * 30 * 16)), 'c16').reshape(30, 30)
        a = (b.real if rng.random() < 0.5 else b.imag) if k == 'real' else np.diagonal(b)
    elif k == 'swapped':
        b = np.frombuffer(bytearray(rng.randbytes(4 * 5 * 6 * 8)), '<f8').reshape(4, 5, 6)
        a = np.swapaxes(b, *rng.sample(range(3), 2))
    else:
        a = npgen.array(rng, guard=False)[0] if k != 'matrix' else \
            np.frombuffer(bytearray(rng.randbytes(240)), '<i4').reshape(6, 10)
        if k == 'matrix':
            a = np.matrix(a)
        elif k == 'recarray':
            a = a.view(np.recarray)
        elif k == 'subclass':
            a = a.view(Sub)
        elif k == 'readonly':
            a = a.view()
            a.flags.writeable = False
        elif k == 'bytes':
            a = np.frombuffer(rng.randbytes(rng.choice([1, 999, 30000])), 'u1')
        elif k == 'ravel':
            a = a.ravel('K')
    return a, k


def args(ctx, a):
    rng = ctx.rng
    size, item = a.size * a.itemsize, a.itemsize
    ch = rng.choice(['default', 'item', 'multi', 'multi', 'multi', 'exact', 'over'])
    if size > 2 ** 20 and ch == 'default':
        ch = 'exact'
    k = {}
    if ch == 'item':
        k['chunk_size'] = item if a.size < 300 else item * (a.size // 200)
    elif ch == 'multi':
        n = rng.randrange(1, max(2, a.size))
        n = max(n, a.size // 300 + 1)
        k['chunk_size'] = item * n
    elif ch == 'exact':
        k['chunk_size'] = max(1, size)
    elif ch == 'over':
        k['chunk_size'] = size + rng.randrange(1, 1000)
    if k.get('chunk_size', 2 ** 20) < size:
        ctx.event('multi_chunk')
    sb = gen.blosc_args(rng) if rng.random() < 0.6 else None
    sp = gen.bloscpack_args(rng) if rng.random() < 0.6 else None
    sm = gen.metadata_args(rng) if rng.random() < 0.4 else None
    if sm is not None and sm['max_meta'][0] == 'int':
        sm['max_meta'] = ('add', 5)
    if sb is None and sp is None and sm is None and ch == 'default':
        ctx.event('default_args')
    k.update(blosc_args=ops.A(sb), bloscpack_args=ops.B(sp), metadata_args=ops.M(sm))
    k = dict((x, y) for x, y in k.items() if y is not None)
    return k, dict(chunk=k.get('chunk_size'), blosc=sb, bpack=sp, ma=sm)


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'basic':
        code, lay = arg
        a, desc, keep = npgen.array(rng, np.dtype(code), rng.choice([(6, 5), (4, 3, 2), (9, 1, 2)]),
                                    layout=lay)
        p = rng.choice(list(PACK.values()))
        k, dk = args(ctx, a)
    elif kind == 'route':
        r, n = arg
        a, desc, keep = npgen.array(rng)
        p = PACK[r]
        k, dk = args(ctx, a)
        if n < 4:
            size = a.size * a.itemsize
            if size < 2 ** 20:
                k, dk = {}, {}
                ctx.event('default_args')
    elif kind == 'object':
        a, k = special(ctx)
        plain = np.array(a.view(np.ndarray), order='K', copy=True)
        p = rng.choice(list(PACK.values()))
        desc, keep = dict(dtype=str(a.dtype), shape=list(a.shape), kind=k), (None, plain)
        k, dk = args(ctx, a.view(np.ndarray))
        was = npgen.content(plain)
        run(ctx, a, desc, keep, p, k, dk)
        ctx.check(npgen.content(a.view(np.ndarray)) == was, 'packing changed its input',
                  note=ctx.note)
        return
    elif kind == 'random':
        a, desc, keep = npgen.array(rng)
        p = rng.choice(list(PACK.values()))
        k, dk = args(ctx, a)
    elif kind == 'large':
        # chunks of more than 16 MiB, and several of them
        dt = np.dtype(rng.choice(['u1', 'S3', '?'] if arg % 2 else
                                 ['>f8', 'i4', 'u1', 'c16', 'S16', 'S255']))
        chunk = rng.randrange(2 ** 24, 2 ** 25) // dt.itemsize * dt.itemsize
        if arg == 0:
            chunk = 2 ** 28 // dt.itemsize * dt.itemsize
        n = (chunk + rng.choice([1, chunk // 2, chunk, chunk + 300])) // dt.itemsize
        raw = np.resize(np.frombuffer(rng.randbytes(2 ** 20 - 1), np.uint8), n * dt.itemsize)
        a = raw.view(dt)
        if rng.random() < 0.5:
            a = a[:n // 6 * 6].reshape((3, 2, -1), order='F')
        desc, keep = dict(dtype=str(dt), shape=list(a.shape), layout='large'), (None, raw)
        p = rng.choice(list(PACK.values()))
        dk = k = dict(chunk_size=chunk, blosc_args=ops.A(dict(
            typesize=8, clevel=rng.choice([0, 1]), shuffle=False, cname='blosclz')))
        ctx.event('large_chunks')
    else:
        dt = np.dtype(rng.choice(['f8', 'i4', 'u1', 'c16', 'S16']))
        n = rng.choice([2 ** 20, 2 ** 21, 3 * 2 ** 20]) // dt.itemsize + rng.choice([0, 1, -1])
        raw = np.frombuffer(bytearray(gen.data(rng, n * dt.itemsize, rng.choice(['i8', 'mixed', 'random']))), dt)
        a, lay = raw, rng.choice(['line', 'F', 'F', 'T', 'step', 'C'])
        if lay == 'step':
            a = raw[::rng.choice([-1, 2, -3])]
        elif lay != 'line':
            a = raw[:n // 60 * 60].reshape(rng.choice([(3, -1), (-1, 5), (3, 4, -1), (5, -1, 4)]),
                                           order='F' if lay == 'F' else 'C')
            a = a.swapaxes(0, 1) if lay == 'T' else a
        ctx.event('big_' + lay)
        desc, keep = dict(dtype=str(dt), shape=list(a.shape), layout='big ' + lay), (None, raw)
        p = rng.choice(list(PACK.values()))
        k, dk = {}, {}
        if rng.random() < 0.5:
            k = dict(chunk_size=rng.choice(['512K', 2 ** 18, '1M']))
            dk = k
    run(ctx, a, desc, keep, p, k, dk)
