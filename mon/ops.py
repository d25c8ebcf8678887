"""Adapters: every way in and out of the library, driven by plain specs."""
import io
import os
import zlib

import blosc
import bloscpack as bp
from bloscpack import append as _append_mod  # noqa: F401
from bloscpack.abstract_io import pack, unpack
from bloscpack.args import calculate_nchunks, BloscArgs, BloscpackArgs, MetadataArgs
from bloscpack.file_io import (PlainFPSource, PlainFPSink, CompressedFPSource,
                               CompressedFPSink)
from bloscpack.memory_io import (PlainMemorySource, PlainMemorySink,
                                 CompressedMemorySource, CompressedMemorySink)
from bloscpack.numpy_io import (pack_ndarray, unpack_ndarray)

from . import gen, ref


def A(spec):
    """blosc args object or None"""
    return None if spec is None else BloscArgs(**spec)


def B(spec):
    if spec is None:
        return None
    k = {}
    if 'offsets' in spec:
        k['offsets'] = spec['offsets']
    if 'checksum' in spec:
        k['checksum'] = spec['checksum']
    if 'max_app' in spec and spec['max_app'][0] != 'default':
        k['max_app_chunks'] = gen.max_app_value(spec['max_app'])
    return BloscpackArgs(**k)


def M(spec):
    if spec is None:
        return None
    k = dict((x, spec[x]) for x in ('meta_codec', 'meta_level', 'meta_checksum')
             if x in spec)
    if 'max_meta' in spec and spec['max_meta'][0] != 'default':
        k['max_meta_size'] = gen.max_meta_value(spec['max_meta'])
    return MetadataArgs(**k)


def spec(chunk='1M', blosc=None, bpack=None, meta=None, ma=None):
    return dict(chunk=chunk, blosc=blosc, bpack=bpack, meta=meta, ma=ma)


def random_spec(rng, chunk, meta=True, checksum=None, offsets=None):
    """Random valid arguments; each group is left to its default sometimes."""
    return spec(chunk,
                gen.blosc_args(rng) if rng.random() < 0.8 else None,
                gen.bloscpack_args(rng, checksum, offsets)
                if checksum or offsets is not None or rng.random() < 0.85 else None,
                gen.metadata(rng) if meta and rng.random() < 0.5 else None,
                gen.metadata_args(rng) if meta and rng.random() < 0.6 else None)


def kw(s):
    k = dict(chunk_size=s['chunk'], metadata=s['meta'], blosc_args=A(s['blosc']),
             bloscpack_args=B(s['bpack']), metadata_args=M(s['ma']))
    return left_out(k, s)


def left_out(k, key):
    """Every second time, what has its default value is not passed at all."""
    if zlib.crc32(repr(key).encode('utf-8', 'replace')) & 1:
        return k
    return dict((n, v) for n, v in k.items() if v is not None and (n, v) != ('chunk_size', '1M'))


def nchunks_of(size, s):
    if s['chunk'] == '1M' and size & 1:
        return calculate_nchunks(size)
    return calculate_nchunks(size, s['chunk'])


def kw_pack(s):
    k = kw(s)
    k.pop('chunk_size', None)
    return k


def read(path):
    with open(path, 'rb') as fp:
        return fp.read()


def write(path, b):
    with open(path, 'wb') as fp:
        fp.write(b)
    return path


def prior(path, key):
    """What the output may be before: nothing, something longer, or shorter."""
    k = zlib.crc32(repr(key).encode()) & 3
    if k == 0 and os.path.exists(path):
        os.unlink(path)
    elif k == 1:
        write(path, b'older content' * (500 + key[0] // 3))
    elif k == 2:
        write(path, b'old')
    return path


class Img(object):
    """A packed result: a file image or a memory sink."""

    def __init__(self, img=None, sink=None):
        self.img, self.sink = img, sink


# -------------------------------------------------------------- packing routes

def p_file_file(d, data, s, name='pack_file_to_file'):
    i, o = os.path.join(d, 'p.in'), os.path.join(d, 'p.blp')
    write(i, data)
    prior(o, (len(data), s['chunk']))
    getattr(bp, name)(i, o, **kw(s))
    return Img(read(o))


def p_file_file_old(d, data, s):
    return p_file_file(d, data, s, 'pack_file')


def p_bytes_file(d, data, s, name='pack_bytes_to_file'):
    o = prior(os.path.join(d, 'p.blp'), (len(data), s['chunk']))
    getattr(bp, name)(data, o, **kw(s))
    return Img(read(o))


def p_bytes_file_old(d, data, s):
    return p_bytes_file(d, data, s, 'pack_bytes_file')


def p_bytes_bytes(d, data, s):
    return Img(bp.pack_bytes_to_bytes(data, **kw(s)))


def p_fp_fp(d, data, s):
    n, c, last = nchunks_of(len(data), s)
    out = io.BytesIO()
    pack(PlainFPSource(io.BytesIO(data)), CompressedFPSink(out), n, c, last, **kw_pack(s))
    return Img(out.getvalue())


def p_realfp(d, data, s):
    i, o = os.path.join(d, 'p.in'), os.path.join(d, 'p.blp')
    write(i, data)
    n, c, last = nchunks_of(len(data), s)
    with open(i, 'rb') as fi, open(o, 'w+b') as fo:
        pack(PlainFPSource(fi), CompressedFPSink(fo), n, c, last, **kw_pack(s))
    return Img(read(o))


def _chunks(data, s):
    n, c, last = nchunks_of(len(data), s)
    ch = [data[i * c:(i + 1) * c] for i in range(n - 1)] + [data[(n - 1) * c:]]
    return n, c, last, ch


def p_mem_fp(d, data, s):
    n, c, last, ch = _chunks(data, s)
    out = io.BytesIO()
    pack(PlainMemorySource(ch), CompressedFPSink(out), n, c, last, **kw_pack(s))
    return Img(out.getvalue())


def p_mem_mem(d, data, s):
    n, c, last, ch = _chunks(data, s)
    sink = CompressedMemorySink()
    pack(PlainMemorySource(ch), sink, n, c, last, **kw_pack(s))
    return Img(sink=sink)


def p_fp_mem(d, data, s):
    n, c, last = nchunks_of(len(data), s)
    sink = CompressedMemorySink()
    pack(PlainFPSource(io.BytesIO(data)), sink, n, c, last, **kw_pack(s))
    return Img(sink=sink)


PACK_IMG = [p_file_file, p_bytes_file, p_bytes_bytes, p_fp_fp, p_realfp, p_mem_fp,
            p_file_file_old, p_bytes_file_old]
PACK_MEM = [p_mem_mem, p_fp_mem]


# ------------------------------------------------------------ unpacking routes
# each: (dir, Img) -> (data, metadata)

def u_file_file(d, im, name='unpack_file_from_file'):
    i, o = os.path.join(d, 'u.blp'), os.path.join(d, 'u.out')
    write(i, im.img)
    prior(o, (len(im.img) * 5, im.img[-3:]))
    m = getattr(bp, name)(i, o)
    return read(o), m


def u_file_file_old(d, im):
    return u_file_file(d, im, 'unpack_file')


def u_bytes_file(d, im, name='unpack_bytes_from_file'):
    i = write(os.path.join(d, 'u.blp'), im.img)
    return getattr(bp, name)(i)


def u_bytes_file_old(d, im):
    return u_bytes_file(d, im, 'unpack_bytes_file')


def u_bytes_bytes(d, im):
    return bp.unpack_bytes_from_bytes(im.img)


def u_fp_fp(d, im):
    src = CompressedFPSource(io.BytesIO(im.img))
    out = io.BytesIO()
    unpack(src, PlainFPSink(out))
    return out.getvalue(), src.metadata


def u_fp_fp_n(d, im):
    src = CompressedFPSource(io.BytesIO(im.img))
    out = io.BytesIO()
    unpack(src, PlainFPSink(out, src.nchunks))
    return out.getvalue(), src.metadata


def u_fp_mem(d, im):
    src = CompressedFPSource(io.BytesIO(im.img))
    sink = PlainMemorySink()
    unpack(src, sink)
    return b''.join(sink.chunks), src.metadata


def u_fp_mem_n(d, im):
    src = CompressedFPSource(io.BytesIO(im.img))
    sink = PlainMemorySink(src.nchunks)
    unpack(src, sink)
    return b''.join(sink.chunks), src.metadata


def u_mem_mem(d, im):
    src = CompressedMemorySource(im.sink)
    sink = PlainMemorySink(src.nchunks)
    unpack(src, sink)
    return b''.join(sink.chunks), src.metadata


def u_mem_mem0(d, im):
    src = CompressedMemorySource(im.sink)
    sink = PlainMemorySink()
    unpack(src, sink)
    return b''.join(sink.chunks), src.metadata


def u_mem_fp(d, im):
    src = CompressedMemorySource(im.sink)
    out = io.BytesIO()
    unpack(src, PlainFPSink(out))
    return out.getvalue(), src.metadata


UNPACK_IMG = [u_file_file, u_bytes_file, u_bytes_bytes, u_fp_fp, u_fp_fp_n, u_fp_mem,
              u_fp_mem_n, u_file_file_old, u_bytes_file_old]
UNPACK_MEM = [u_mem_mem, u_mem_mem0, u_mem_fp]


# ----------------------------------------------------------------- arrays

def np_bytes(d, a, k):
    return Img(bp.pack_ndarray_to_bytes(a, **k))


def np_bytes_old(d, a, k):
    return Img(bp.pack_ndarray_str(a, **k))


def np_file(d, a, k):
    o = prior(os.path.join(d, 'a.blp'), (a.nbytes, a.shape))
    bp.pack_ndarray_to_file(a, o, **k)
    return Img(read(o))


def np_file_old(d, a, k):
    o = prior(os.path.join(d, 'a.blp'), (a.nbytes, a.shape))
    bp.pack_ndarray_file(a, o, **k)
    return Img(read(o))


def np_fp(d, a, k):
    out = io.BytesIO()
    pack_ndarray(a, CompressedFPSink(out), **k)
    return Img(out.getvalue())


def np_mem(d, a, k):
    sink = CompressedMemorySink()
    pack_ndarray(a, sink, **k)
    return Img(sink=sink)


NP_PACK_IMG = [np_bytes, np_file, np_fp, np_bytes_old, np_file_old]
NP_PACK_MEM = [np_mem]


def nu_bytes(d, im):
    return bp.unpack_ndarray_from_bytes(im.img)


def nu_bytes_old(d, im):
    return bp.unpack_ndarray_str(im.img)


def nu_file(d, im):
    return bp.unpack_ndarray_from_file(write(os.path.join(d, 'ua.blp'), im.img))


def nu_file_old(d, im):
    return bp.unpack_ndarray_file(write(os.path.join(d, 'ua.blp'), im.img))


def nu_fp(d, im):
    return unpack_ndarray(CompressedFPSource(io.BytesIO(im.img)))


def nu_mem(d, im):
    return unpack_ndarray(CompressedMemorySource(im.sink))


NP_UNPACK_IMG = [nu_bytes, nu_file, nu_fp, nu_bytes_old, nu_file_old]
NP_UNPACK_MEM = [nu_mem]


def compress_direct(chunk, args, typesize=None):
    """What Blosc itself makes of the chunk with these settings."""
    a = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')
    a.update(args or {})
    if typesize is not None:
        a['typesize'] = typesize
    return blosc.compress(chunk, **a)


def mk(data, s):
    """Pack with the real library, in memory."""
    return bp.pack_bytes_to_bytes(data, **kw(s))


def ref_decode(b, **k):
    f = ref.parse(b, **k)
    return f.data, (f.meta['value'] if f.meta else None)
