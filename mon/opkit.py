"""Self-contained operations with comparable outcomes.

Making an operation uses only the reference writer, never the library, so a
process that only makes operations stays pristine."""
import copy
import io
import json
import os
import re
import zlib

import blosc
import numpy as np

from . import gen, npgen, ops, ref


# ------------------------------------------------------------------ fixtures

def image(rng, n=None, chunk=None, checksum=None, offsets=None, meta='maybe', app=None,
          data=None, typesize=None):
    """A conforming file made without the library: (image, data)."""
    chunk = chunk or rng.choice([16, 64, 100, 256, 1000])
    if data is None:
        if n is None and rng.random() < 0.07:
            data = b''
        else:
            n = n or rng.choice([1, 2, 3, 5, 8])
            data = gen.data(rng, (n - 1) * chunk + rng.choice([1, chunk, max(1, chunk // 2)]))
    pieces = [data[i:i + chunk] for i in range(0, len(data), chunk)] or [b'']
    a = gen.blosc_args(rng)
    if typesize:
        a['typesize'] = typesize
    comp = [blosc.compress(p, **a) for p in pieces]
    sect = None
    if meta == 'maybe':
        meta = gen.metadata(rng) if rng.random() < 0.5 else None
    if meta is not None:
        raw = json.dumps(meta, separators=(',', ':')).encode()
        z = zlib.compress(raw, 6)
        codec = len(z) < len(raw) and rng.random() < 0.7
        pay = z if codec else raw
        sect = ref.meta_section(pay, len(raw), int(codec), 6 if codec else 0,
                                rng.choice(gen.CHECKSUMS), len(pay) * 3 + 40)
        if rng.random() < 0.3:
            sect = ref.foreign_meta(rng, meta, len(raw) * 2 + 40)
    c = len(pieces[0])
    img = ref.build(comp, checksum=checksum or rng.choice(gen.CHECKSUMS),
                    offsets=rng.random() < 0.8 if offsets is None else offsets,
                    max_app=rng.choice([0, 2, 10]) if app is None else app,
                    typesize=a['typesize'], chunk_size=c, last_chunk=len(pieces[-1]),
                    meta=sect)
    return img, data


def array(rng):
    dt = npgen.dtype(rng) if rng.random() < 0.5 else \
        np.dtype(rng.choice(['<i4', '<f8', '|u1', '>i2', '<c16', '|S5']))
    shp = npgen.shape(rng, 600)
    raw = np.zeros(int(np.prod(shp)) * dt.itemsize, np.uint8)
    if raw.size:
        npgen.sanitize(rng, raw, dt)
    # not copied, so that padding is defined too
    return np.ndarray(shp, dt, bytearray(raw.tobytes()), order=rng.choice('CF'))


def array_image(rng):
    """A packed plain array made without the library: (image, array)."""
    dt = np.dtype(rng.choice(['<i4', '<f8', '|u1', '>i2', '<c16']))
    n = rng.choice([1, 7, 100, 300])
    raw = gen.data(rng, n * dt.itemsize)
    meta = {'dtype': repr(dt.str), 'shape': [n], 'order': 'C', 'container': 'numpy'}
    img, _ = image(rng, data=raw, chunk=dt.itemsize * rng.choice([5, 50, 400]), meta=meta,
                   typesize=dt.itemsize)
    return img, np.frombuffer(raw, dt)


def damage(rng, img):
    k = rng.randrange(5)
    if k == 0:
        return img[:rng.randrange(len(img))]
    if k == 1:
        return b'x' + img[1:]
    if k == 2:
        return img[:4] + bytes([rng.choice([1, 2, 4, 200])]) + img[5:]
    if k == 3:
        return rng.randbytes(rng.randrange(0, 80))
    p = len(img) - 1 - rng.randrange(min(20, len(img) - 32))
    return img[:p] + bytes([img[p] ^ rng.randrange(1, 256)]) + img[p + 1:]


# ------------------------------------------------------------ canonical values

def canon(v):
    if isinstance(v, np.ndarray):
        return ('nd', repr(v.dtype), v.shape, 'F' if np.isfortran(v) else 'C',
                npgen.content(v) if hasattr(npgen, 'content') else v.tobytes())
    if isinstance(v, (bytes, bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((k, canon(x)) for k, x in v.items())
    if isinstance(v, (str, int, float, bool, type(None))):
        return (type(v).__name__, repr(v))
    if hasattr(v, 'items'):
        return (type(v).__name__,) + tuple((k, canon(x)) for k, x in v.items())
    return (type(v).__name__, re.sub(r'0x[0-9a-f]+', '0x', repr(v)))


def spoiled(v, depth=0):
    """Do what the owner of a result may do with it: change everything in place."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.names is None and v.size:
            v.view(np.uint8 if v.dtype.kind != 'V' else v.dtype).fill(0) \
                if v.flags.c_contiguous and v.ndim and v.dtype.kind != 'V' else None
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoiled(x, depth + 1)
        v['spoiled'] = True
    elif isinstance(v, list):
        for x in list(v):
            spoiled(x, depth + 1)
        v.append('spoiled')
    elif isinstance(v, tuple):
        for x in v:
            spoiled(x, depth + 1)
    elif hasattr(v, 'items') and hasattr(v, '__setitem__'):
        for k in list(v):
            try:
                v[k] = None
            except Exception:
                pass


def clean(s, d):
    return re.sub(r'0x[0-9a-f]{6,}', '0x', s.replace(d, '<d>'))


# ----------------------------------------------------------------- operations

class Op(object):
    """files: name -> bytes of the inputs. specs: what the argument objects are
    made of. fn(d, a, f): runs it in directory d with argument objects a; f opens
    in-memory files. outs: names the operation may create or change."""

    def __init__(self, name, fn, files=(), specs=None, outs=(), value=None, expect=None):
        self.name, self.fn, self.files = name, fn, dict(files)
        self.specs, self.outs, self.value, self.expect = specs or {}, list(outs), value, expect

    def prepare(self, d):
        for n, b in self.files.items():
            ops.write(os.path.join(d, n), b)

    def args(self, only=None):
        """Fresh argument objects."""
        a = {}
        for k, s in self.specs.items():
            if only is not None and k not in only:
                continue
            a[k] = make_arg(k, s)
        return a

    def outcome(self, d, a=None, f=io.BytesIO, files=True, spoil=False):
        a = self.args() if a is None else a
        try:
            v = self.fn(d, a, f)
            r = ('ok', canon(v))
            if spoil and self.name.startswith(('unpack', '_read')):
                spoiled(v)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)) or \
                    type(e).__name__ in ('CaseHang', 'Violation', 'Skip'):
                raise
            r = ('exc', type(e).__name__, clean(str(e), d))
        return r + (tuple(sorted((n, self.read(d, n)) for n in self.outs)),) if files else r

    @staticmethod
    def read(d, n):
        try:
            return ops.read(os.path.join(d, n))
        except (IOError, OSError):
            return None


def make_arg(k, s):
    if k == 'blosc':
        return ops.A(s)
    if k == 'appblosc':
        return dict(s[1]) if s[0] == 'dict' else ops.A(s[1])
    if k == 'bpack':
        return ops.B(s)
    if k == 'ma':
        return ops.M(s)
    if k == 'array':
        return s
    return copy.deepcopy(s)


def pack_specs(rng, chunk):
    s = ops.random_spec(rng, chunk)
    if isinstance(chunk, int) and rng.random() < 0.15:
        chunk = rng.choice(['%dB', '%d.0B', '0%dB']) % chunk
    return {'blosc': s['blosc'], 'bpack': s['bpack'], 'ma': s['ma'], 'meta': s['meta'],
            'chunk': chunk}


def kw(a):
    return ops.left_out(dict(chunk_size=a['chunk'], metadata=a['meta'], blosc_args=a['blosc'],
                             bloscpack_args=a['bpack'], metadata_args=a['ma']), a['chunk'])


def kwp(a):
    k = kw(a)
    k.pop('chunk_size', None)
    return k


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            for y in leaves(x, path + (k,)):
                yield y
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            for y in leaves(x, path + (i,)):
                yield y
    elif isinstance(v, (bool, int, float)):
        yield path, v


def put(v, path, x):
    if not path:
        return x
    if isinstance(v, tuple):
        return v[:path[0]] + (put(v[path[0]], path[1:], x),) + v[path[0] + 1:]
    v = copy.copy(v)
    v[path[0]] = put(v[path[0]], path[1:], x)
    return v


def twin(op, rng):
    """The operation with one value that is equal but of another type (1, 1.0, True), which
    is another request; None if there is no such value."""
    have = []
    for path, v in leaves({k: s for k, s in op.specs.items() if k not in ('data', 'array', 'img')}):
        other = [t for t in (int, float, bool) if t is not type(v)]
        other = [t(v) for t in other if abs(v) < 1e9 and t(v) == v]
        have += [(path, o) for o in other]
    if not have:
        return None
    t = copy.copy(op)
    t.specs = dict(op.specs)
    path, v = rng.choice(have)
    t.specs[path[0]] = put(t.specs[path[0]], path[1:], v)
    t.name = op.name
    return t


def j(d, n):
    return os.path.join(d, n)


def o_pack(rng):
    """Packing, any route."""
    import bloscpack as bp
    from bloscpack.abstract_io import pack, unpack
    from bloscpack.args import calculate_nchunks
    from bloscpack.file_io import PlainFPSource, CompressedFPSink
    from bloscpack.memory_io import (PlainMemorySource, CompressedMemorySink,
                                     CompressedMemorySource, PlainMemorySink)
    size, chunk = gen.size_and_chunk(rng, 4000)
    data = gen.data(rng, size)
    s = pack_specs(rng, chunk)
    s['data'] = data
    k = rng.randrange(5)
    if k == 0:
        return Op('pack_file_to_file',
                  lambda d, a, f: bp.pack_file_to_file(j(d, 'in'), j(d, 'out.blp'), **kw(a)),
                  {'in': data}, s, ['out.blp'])
    if k == 1:
        return Op('pack_bytes_to_file',
                  lambda d, a, f: bp.pack_bytes_to_file(a['data'], j(d, 'out.blp'), **kw(a)),
                  {}, s, ['out.blp'])
    if k == 2:
        return Op('pack_bytes_to_bytes',
                  lambda d, a, f: bp.pack_bytes_to_bytes(a['data'], **kw(a)), {}, s)

    def fp(d, a, f):
        n, c, last = calculate_nchunks(len(a['data']), a['chunk'])
        out = f()
        pack(PlainFPSource(f(a['data'])), CompressedFPSink(out), n, c, last, **kwp(a))
        return out.getvalue()

    def mem(d, a, f):
        n, c, last = calculate_nchunks(len(a['data']), a['chunk'])
        src = PlainMemorySource([a['data'][i * c:(i + 1) * c] for i in range(n)])
        sink = CompressedMemorySink()
        pack(src, sink, n, c, last, **kwp(a))
        back = PlainMemorySink() if way else PlainMemorySink(n)
        unpack(CompressedMemorySource(sink), back)
        return sink.chunks, sink.metadata, getattr(sink, 'checksums', None), back.chunks
    way = rng.randrange(2)
    return Op('pack fp', fp, {}, s) if k == 3 else Op('pack memory', mem, {}, s)


def o_unpack(rng, img=None, data=None, name=''):
    import bloscpack as bp
    from bloscpack.abstract_io import unpack
    from bloscpack.file_io import CompressedFPSource, PlainFPSink
    from bloscpack.memory_io import PlainMemorySink
    if img is None:
        img, data = image(rng)
    k = rng.randrange(4)
    s = {'img': img}
    if k == 0:
        return Op('unpack_file_from_file' + name,
                  lambda d, a, f: bp.unpack_file_from_file(j(d, 'in.blp'), j(d, 'out')),
                  {'in.blp': img}, {}, ['out'], expect=data)
    if k == 1:
        return Op('unpack_bytes_from_file' + name,
                  lambda d, a, f: bp.unpack_bytes_from_file(j(d, 'in.blp')),
                  {'in.blp': img}, {}, expect=data)
    if k == 2:
        return Op('unpack_bytes_from_bytes' + name,
                  lambda d, a, f: bp.unpack_bytes_from_bytes(a['img']), {}, s, expect=data)

    def fp(d, a, f):
        src = CompressedFPSource(f(a['img']))
        if way == 0:
            out = f()
            unpack(src, PlainFPSink(out))
            return out.getvalue(), src.metadata
        sink = PlainMemorySink(src.nchunks) if way == 1 else PlainMemorySink()
        unpack(src, sink)
        return sink.chunks, src.metadata
    way = rng.randrange(3)
    return Op('unpack fp' + name, fp, {}, s, expect=data)


def o_unpack_bad(rng):
    img, data = image(rng, checksum=rng.choice(['crc32', 'md5', 'sha256']))
    return o_unpack(rng, damage(rng, img), None, ' (damaged)')


def o_append(rng):
    from bloscpack.append import append, append_fp
    from . import hist
    chunk = rng.choice([16, 100, 256])
    ok = rng.random() < 0.7
    img, data = image(rng, chunk=chunk, offsets=ok or rng.random() < 0.5, app=6 if ok else 0)
    if not ok and rng.random() < 0.3:
        img = damage(rng, img)
    piece = gen.data(rng, rng.choice([0, 1, 5, chunk, chunk * 2 + 3]) if ok
                     else chunk * 3 + rng.randrange(9))
    b = hist.blosc_spec(rng)
    s = {'appblosc': ('obj', None) if b is None else (rng.choice(['dict', 'obj']), b),
         'img': img, 'piece': piece}
    name = '' if ok else ' (refused)'
    if rng.random() < 0.5:
        return Op('append' + name,
                  lambda d, a, f: append(j(d, 'o.blp'), j(d, 'new'), a['appblosc']),
                  {'o.blp': img, 'new': piece}, s, ['o.blp'])

    def fp(d, a, f):
        o = f(a['img'])
        r = append_fp(o, f(a['piece']), len(a['piece']), a['appblosc'])
        return r, o.getvalue()
    return Op('append_fp' + name, fp, {}, s)


def o_update(rng):
    from bloscpack.append import _rewrite_metadata_fp
    img, data = image(rng, meta=gen.metadata(rng))
    v = rng.choice([{'n': rng.randrange(99)}, gen.metadata(rng), 'x' * 30, 'y' * 30000,
                    rng.randbytes(9000).hex()])
    k = {}
    if rng.random() < 0.5:
        k['codec'] = rng.choice(['None', 'zlib'])
    if rng.random() < 0.3:
        k['level'] = rng.randrange(10)
    if rng.random() < 0.3:
        k['checksum'] = rng.choice(gen.CHECKSUMS)

    def fp(d, a, f):
        o = f(a['img'])
        o.seek(32)
        r = _rewrite_metadata_fp(o, a['meta'], **a['k'])
        return r, o.getvalue()
    return Op('_rewrite_metadata_fp', fp, {}, {'img': img, 'meta': v, 'k': k})


def o_np_pack(rng):
    import bloscpack as bp
    from bloscpack.numpy_io import pack_ndarray
    from bloscpack.memory_io import CompressedMemorySink
    a = array(rng)
    if rng.random() < 0.08:
        a = np.array([1, 'x', None], dtype=object)
    s = pack_specs(rng, max(1, a.itemsize * rng.choice([1, 3, 10, 1000])
                            if rng.random() < 0.9 else rng.randrange(1, 50)))
    s['array'] = a
    k = rng.randrange(3)

    def kn(x):
        y = kw(x)
        del y['metadata']
        return y
    if k == 0:
        return Op('pack_ndarray_to_bytes',
                  lambda d, x, f: bp.pack_ndarray_to_bytes(x['array'], **kn(x)), {}, s)
    if k == 1:
        return Op('pack_ndarray_to_file',
                  lambda d, x, f: bp.pack_ndarray_to_file(x['array'], j(d, 'a.blp'), **kn(x)),
                  {}, s, ['a.blp'])

    def mem(d, x, f):
        sink = CompressedMemorySink()
        pack_ndarray(x['array'], sink, **kn(x))
        return sink.chunks, sink.metadata
    return Op('pack_ndarray memory', mem, {}, s)


def o_np_unpack(rng):
    import bloscpack as bp
    from bloscpack.numpy_io import unpack_ndarray
    from bloscpack.file_io import CompressedFPSource
    k = rng.random()
    arr = None
    if k < 0.65:
        img, arr = array_image(rng)
    elif k < 0.8:
        img, _ = image(rng)
    else:
        img = damage(rng, array_image(rng)[0])
    name = '' if arr is not None else ' (refused)'
    k = rng.randrange(3)
    s = {'img': img}
    if k == 0:
        return Op('unpack_ndarray_from_bytes' + name,
                  lambda d, a, f: bp.unpack_ndarray_from_bytes(a['img']), {}, s)
    if k == 1:
        return Op('unpack_ndarray_from_file' + name,
                  lambda d, a, f: bp.unpack_ndarray_from_file(j(d, 'a.blp')),
                  {'a.blp': img}, {})
    return Op('unpack_ndarray fp' + name,
              lambda d, a, f: unpack_ndarray(CompressedFPSource(f(a['img']))), {}, s)


LEGACY = [([['a', '<i4'], ['b', '<f8']], 12), ([['x', '|u1', 3]], 3),
          ([['o', [['i', '<i2'], ['j', '|S3']]]], 5), ('<i4', 4), ("'<i4'", 4),
          ("[('a', '<i4'), ('b', '<f8')]", 12), ("[('x', '|u1', (3,))]", 3)]


def o_np_memory(rng):
    """Arrays out of memory, described as any release did; the description is an argument."""
    from bloscpack.abstract_io import pack
    from bloscpack.memory_io import (CompressedMemorySink, CompressedMemorySource,
                                     PlainMemorySource)
    from bloscpack.numpy_io import PlainNumpySink, unpack_ndarray
    import copy
    desc, size = rng.choice(LEGACY)
    n = rng.choice([1, 2, 7])
    s = {'amd': {'dtype': copy.deepcopy(desc), 'shape': rng.choice([[n], [1, n]]),
                 'order': rng.choice('CF'), 'container': 'numpy'},
         'data': gen.data(rng, n * size)}
    if rng.random() < 0.1:
        s['amd'].pop(rng.choice(sorted(s['amd'])))
    if rng.random() < 0.4:
        return Op('PlainNumpySink', lambda d, a, f: PlainNumpySink(a['amd']).ndarray.dtype.descr,
                  {}, s)

    def mem(d, a, f):
        sink = CompressedMemorySink()
        pack(PlainMemorySource([a['data']]), sink, 1, len(a['data']), len(a['data']),
             metadata=a['amd'])
        src = CompressedMemorySource(sink)
        return unpack_ndarray(src), unpack_ndarray(src)
    return Op('unpack_ndarray memory', mem, {}, s)


def o_read(rng):
    from bloscpack.file_io import _read_beginning
    img, _ = image(rng)
    if rng.random() < 0.2:
        img = damage(rng, img)
    return Op('_read_beginning', lambda d, a, f: _read_beginning(f(a['img'])), {},
              {'img': img})


def o_chunks(rng):
    from bloscpack.args import calculate_nchunks
    text = rng.choice(['1', '10', '100', '1000', '1024', '1.5', '2.5', '1.25', '1000000']) + \
        rng.choice('BKMG')
    s = {'size': rng.choice([0, 1, 1000, 2 ** 31, 2 ** 40, -1]),
         'chunk': rng.choice(['1M', '2K', 'max', 1, 1000, 'x', 0, 2 ** 31, '0.5K', -3, text, text,
                              text, text])}
    return Op('calculate_nchunks', lambda d, a, f: calculate_nchunks(a['size'], a['chunk']),
              {}, s)


def o_fail(rng):
    """Packing that has to be refused."""
    import bloscpack as bp
    s = pack_specs(rng, rng.choice([100, 1000]))
    s['data'] = gen.data(rng, 500)
    k = rng.randrange(6)
    if k == 0:
        s['chunk'] = rng.choice([0, -1, 2 ** 31, '3G', 'x'])
    elif k == 1:
        s['blosc'] = dict(typesize=rng.choice([0, 256]), clevel=5, shuffle=True, cname='lz4')
    elif k == 2:
        s['blosc'] = dict(typesize=4, clevel=rng.choice([10, -1]), shuffle=True, cname='lz4')
    elif k == 3:
        s['blosc'] = dict(typesize=4, clevel=5, shuffle=True, cname='nope')
    elif k == 4:
        s['meta'] = {'x': b'not json'}
    else:
        return Op('pack_file_to_file (no input)', lambda d, a, f: bp.pack_file_to_file(
            j(d, 'absent'), j(d, 'out.blp'), **kw(a)), {}, s, ['out.blp'])
    if rng.random() < 0.5:
        return Op('pack_bytes_to_bytes (refused)',
                  lambda d, a, f: bp.pack_bytes_to_bytes(a['data'], **kw(a)), {}, s)
    return Op('pack_file_to_file (refused)', lambda d, a, f: bp.pack_file_to_file(
        j(d, 'in'), j(d, 'out.blp'), **kw(a)), {'in': s['data']}, s, ['out.blp'])


KINDS = [o_pack, o_pack, o_pack, o_unpack, o_unpack, o_unpack_bad, o_append, o_append,
         o_update, o_np_pack, o_np_pack, o_np_unpack, o_np_unpack, o_np_memory, o_read, o_chunks, o_chunks, o_fail]


def make(rng, kinds=KINDS, rich=False):
    op = rng.choice(kinds)(rng)
    if rich and op.name.startswith('pack') and 'ma' in op.specs and 'refused' not in op.name:
        # metadata that is worth compressing, at a level of its own
        if 'meta' in op.specs:
            op.specs['meta'] = {'text': [gen.text(rng, 9) for _ in range(3)] * rng.randrange(2, 40)}
        op.specs['ma'] = dict(op.specs['ma'] or gen.metadata_args(rng), meta_codec='zlib',
                              meta_level=rng.choice([1, 3, 6, 9]), max_meta=('default', 0))
    return op
