"""Array generators, strict comparison and guard-page placement."""
import ctypes
import mmap

import numpy as np

from . import gen

PAGE = mmap.PAGESIZE
_libc = ctypes.CDLL(None, use_errno=True)

BASIC = list('?bBhHiIlLqQefdgFDG')
UNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', '25s', '7D', '2ms']


def basic(rng, maxsize=255):
    while True:
        k = rng.randrange(8)
        if k <= 2:
            s = rng.choice(BASIC)
        elif k == 3:
            s = 'S%d' % rng.choice([1, 2, 3, 7, 8, 16, rng.randrange(1, 256)])
        elif k == 4:
            s = 'U%d' % rng.choice([1, 2, 5, rng.randrange(1, 64)])
        elif k == 5:
            s = 'V%d' % rng.choice([1, 2, 5, 16, rng.randrange(1, 256)])
        else:
            s = rng.choice('mM') + '8[%s]' % rng.choice(UNITS)
        dt = np.dtype(s)
        if rng.random() < 0.35:
            dt = dt.newbyteorder(rng.choice('<>'))
        if 1 <= dt.itemsize <= maxsize:
            return dt


NAMES = ['a', 'b', 'x', 'y', 'f0', 'f1', 'f2', 'value', 'Name With Space', 'é', 'ünï',
         "quo'te", 'dq"x', 'back\\slash', 'n\nl', '数', 'long_' + 'n' * 60, '1', 'V', '[0]',
         'lambda', 'None', '%s', '{}']


def struct(rng, depth=0, maxsize=255, padded=None):
    """Structured dtype with increasing, non-overlapping offsets, optionally with gaps."""
    for _ in range(50):
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        names = rng.sample(NAMES, n)
        formats = []
        for _i in range(n):
            f = struct(rng, depth + 1, maxsize // n, padded) \
                if depth < 2 and rng.random() < 0.2 and maxsize // n > 8 \
                else basic(rng, max(1, maxsize // (n + 1)))
            if rng.random() < 0.2:
                shp = tuple(rng.randrange(1, 4) for _ in range(rng.choice([1, 1, 2])))
                if f.itemsize * int(np.prod(shp)) <= maxsize // n:
                    f = np.dtype((f, shp))
            formats.append(f)
        k = rng.random()
        if padded is False or (padded is None and k < 0.5):
            if rng.random() < 0.3:
                dt = np.dtype([((('t%d' % i, nm), f) if rng.random() < 0.7 else (nm, f))
                               for i, (nm, f) in enumerate(zip(names, formats))])
            else:
                dt = np.dtype(list(zip(names, formats)))
        elif k < 0.75:
            dt = np.dtype(list(zip(names, formats)), align=True)
        else:
            offs, pos = [], 0
            for f in formats:
                pos += rng.choice([0, 0, 1, 2, 3, 5, 8])
                offs.append(pos)
                pos += f.itemsize
            d = {'names': names, 'formats': formats, 'offsets': offs,
                 'itemsize': pos + rng.choice([0, 0, 1, 4, 7])}
            if rng.random() < 0.2:
                d['titles'] = ['t%d' % i for i in range(n)]
            dt = np.dtype(d)
        if 1 <= dt.itemsize <= maxsize:
            return dt
    return np.dtype([('a', 'i1')])


def dtype(rng):
    return basic(rng) if rng.random() < 0.6 else struct(rng)


def sanitize(rng, raw, dt):
    """Fill raw (uint8 array of n*itemsize) with valid random values for dt."""
    n = raw.size // dt.itemsize
    raw[:] = np.frombuffer(gen.data(rng, raw.size, rng.choice(
        ['random', 'ramp', 'zeros', 'mixed'])), np.uint8)
    if n:
        _fix(rng, raw.view(np.dtype((np.void, dt.itemsize))).reshape(-1), dt, 0, raw, dt.itemsize)


def _fix(rng, _, dt, off, raw, stride):
    """bools to 0/1, unicode to valid code points"""
    if dt.subdtype is not None:
        base, shape = dt.subdtype
        for i in range(int(np.prod(shape))):
            _fix(rng, _, base, off + i * base.itemsize, raw, stride)
    elif dt.names:
        for nm in dt.names:
            f = dt.fields[nm]
            _fix(rng, _, f[0], off + f[1], raw, stride)
    elif dt.kind == 'b':
        raw[off::stride] &= 1
    elif dt.kind == 'U':
        rows = np.lib.stride_tricks.as_strided(
            raw[off:], shape=(raw.size // stride, dt.itemsize), strides=(stride, 1)) \
            if raw.size >= off + dt.itemsize else raw[:0].reshape(0, 0)
        # keep one low byte per code point
        keep = 0 if dt.byteorder in '<=|' else 3
        for j in range(dt.itemsize):
            if rows.size and j % 4 != keep:
                rows[:, j] = 0


def shape(rng, maxitems=3000):
    k = rng.random()
    if k < 0.06:
        return ()
    if k < 0.12:
        return rng.choice([(0,), (0, 3), (3, 0, 2), (0, 0)])
    nd = rng.choice([1, 1, 1, 2, 2, 3, 4, 5])
    while True:
        s = tuple(rng.choice([1, 1, 2, 3, 4, 5, 7, 8, rng.randrange(1, 40),
                              rng.randrange(1, 1200) if nd == 1 else 3]) for _ in range(nd))
        if int(np.prod(s)) <= maxitems:
            return s


class Guarded(object):
    """nbytes of memory that touches an inaccessible page at its end or start."""

    def __init__(self, nbytes, at_end=True):
        pages = max(1, -(-nbytes // PAGE))
        total = (pages + 2) * PAGE
        self.map = mmap.mmap(-1, total)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
        for p in (self.addr, self.addr + (pages + 1) * PAGE):
            if _libc.mprotect(ctypes.c_void_p(p), ctypes.c_size_t(PAGE), 0):
                raise OSError('mprotect')
        off = PAGE + (pages * PAGE - nbytes if at_end else 0)
        self.raw = np.frombuffer(self.map, np.uint8, nbytes, off) if nbytes else \
            np.zeros(0, np.uint8)


def array(rng, dt=None, shp=None, guard=True, layout=None):
    """-> (array, description, keep-alive). The memory under the array has exactly
    the size the array needs and lies against an inaccessible page."""
    dt = dtype(rng) if dt is None else dt
    shp = shape(rng) if shp is None else shp
    layout = layout or rng.choice(['C', 'C', 'C', 'F', 'F', 'step', 'rev', 'T', 'bcast',
                                   'slice', 'ro', 'unaligned', 'Fstep', 'view1'])
    nd = len(shp)
    if nd == 0 and layout not in ('C', 'ro', 'unaligned'):
        layout = 'C'
    if nd < 2 and layout in ('F', 'T', 'Fstep'):
        layout = 'step'
    if 0 in shp and layout not in ('C', 'F', 'ro', 'T'):
        layout = 'C'
    base_shape = list(shp)
    if layout in ('step', 'Fstep'):
        base_shape = [2 * x for x in shp]
    elif layout == 'slice':
        base_shape = [x + 2 for x in shp]
    elif layout == 'bcast':
        base_shape[0] = 1
    while int(np.prod(base_shape)) * dt.itemsize > 400000:
        base_shape = [max(1, x // 2) for x in base_shape]
    nbytes = int(np.prod(base_shape)) * dt.itemsize
    g = Guarded(nbytes, rng.random() < 0.75)
    raw = g.raw
    if nbytes:
        sanitize(rng, raw, dt)
    if layout == 'unaligned' and nbytes:
        big = np.zeros(nbytes + 1, np.uint8)
        big[1:] = raw
        raw = big[1:]
    if nbytes:
        base = raw.view(np.uint8)
        base = np.ndarray(tuple(base_shape), dt, buffer=base.data if base.size else None,
                          order='F' if layout in ('F', 'Fstep') else 'C')
    else:
        base = np.zeros(tuple(base_shape), dt, order='F' if layout == 'F' else 'C')
    a = base
    if layout in ('step', 'Fstep'):
        a = base[tuple(slice(None, None, 2) for _ in base_shape)]
    elif layout == 'rev':
        a = base[tuple(slice(None, None, -1) for _ in base_shape)]
    elif layout == 'slice':
        a = base[tuple(slice(1, -1) for _ in base_shape)]
    elif layout == 'T':
        perm = list(range(nd))
        rng.shuffle(perm)
        a = base.transpose(perm)
    elif layout == 'bcast':
        a = np.broadcast_to(base, tuple([rng.randrange(1, 6)] + base_shape[1:]))
    elif layout == 'view1':
        a = base[..., None].swapaxes(0, -1) if nd < 5 else base
    if layout == 'ro':
        a.setflags(write=False)
    return a, dict(dtype=str(dt)[:200], shape=list(a.shape), layout=layout,
                   strides=list(a.strides)), (g, base)


def dtype_diff(a, b):
    """None if the dtypes are the same in every respect, else what differs."""
    if a.kind != b.kind:
        return 'kind %s/%s' % (a, b)
    if a.itemsize != b.itemsize:
        return 'itemsize %s/%s' % (a, b)
    if (a.subdtype is None) != (b.subdtype is None):
        return 'subarray %s/%s' % (a, b)
    if a.subdtype is not None:
        if a.subdtype[1] != b.subdtype[1]:
            return 'subarray shape %s/%s' % (a, b)
        return dtype_diff(a.subdtype[0], b.subdtype[0])
    if a.names != b.names:
        return 'names %s/%s' % (a.names, b.names)
    if a.names is None:
        if a.str != b.str:
            return 'type %s/%s' % (a.str, b.str)
        if a.newbyteorder('=').str != a.str and b.newbyteorder('=').str == b.str:
            return 'byte order %s/%s' % (a, b)
        return None
    for nm in a.names:
        fa, fb = a.fields[nm], b.fields[nm]
        if fa[1] != fb[1]:
            return 'offset of %r: %s/%s' % (nm, fa[1], fb[1])
        if (fa[2] if len(fa) > 2 else None) != (fb[2] if len(fb) > 2 else None):
            return 'title of %r' % nm
        d = dtype_diff(fa[0], fb[0])
        if d:
            return '%r: %s' % (nm, d)
    return None


def content(a):
    """Bytes of every element (padding between fields left out)."""
    if a.dtype.names:
        return [content(a[nm]) for nm in a.dtype.names]
    return a.tobytes()


def diff(a, b):
    """What differs between the packed array a and the restored array b."""
    if type(b) is not np.ndarray:
        return 'result is %s' % type(b)
    if a.shape != b.shape:
        return 'shape %s/%s' % (a.shape, b.shape)
    d = dtype_diff(a.dtype, b.dtype)
    if d:
        return 'dtype ' + d
    if np.isfortran(a) and not b.flags['F_CONTIGUOUS']:
        return 'Fortran order lost'
    if not np.isfortran(a) and not b.flags['C_CONTIGUOUS']:
        return 'C order lost'
    if content(a) != content(b):
        return 'values'
    return None
