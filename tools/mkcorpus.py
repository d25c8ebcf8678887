"""Made corpus/ once, with the pinned release (run with PYTHONPATH=<pinned tree>)."""
import hashlib
import io
import json
import os
import random
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import numpy as np
import blosc
import bloscpack as bp
from bloscpack.append import append_fp
from mon import gen, ops, npgen
blosc.set_nthreads(1)
C = os.path.join(V, 'corpus')
os.makedirs(C, exist_ok=True)
index = []


def put(name, img, data, meta, kind='bytes', **k):
    with open(os.path.join(C, name), 'wb') as fp:
        fp.write(img)
    index.append(dict(file=name, kind=kind, sha256=hashlib.sha256(data).hexdigest(),
                      size=len(data), metadata=meta, **k))


rng = random.Random('corpus')
for i, ck in enumerate(gen.CHECKSUMS):
    data = gen.data(rng, 700, 'text')
    s = ops.spec(256, dict(typesize=4, clevel=5, shuffle=True, cname=gen.CNAMES[i % len(gen.CNAMES)]),
                 dict(checksum=ck, offsets=i % 3 != 2, max_app=('int', 2)),
                 {'n': i, 'ck': ck} if i % 2 else None,
                 dict(meta_checksum=gen.CHECKSUMS[-1 - i]))
    put('bytes_%s.blp' % ck, ops.mk(data, s), data, s['meta'])
for size in (0, 1, 16, 100):
    data = gen.data(rng, size, 'random')
    put('default_%d.blp' % size, bp.pack_bytes_to_bytes(data), data, None)
data = gen.data(rng, 5000, 'i8')
for cn in gen.CNAMES:
    s = ops.spec(1600, dict(typesize=8, clevel=9, shuffle=2 if cn != 'blosclz' else 1, cname=cn),
                 dict(max_app=('int', 0)))
    put('codec_%s.blp' % cn, ops.mk(data, s), data, None)
for i, m in enumerate([{}, [], '', 0, {'a': None}, 'x' * 50, {'é': '中'}]):
    s = ops.spec(64, None, dict(max_app=('int', 1)), m,
                 dict(meta_codec=['zlib', 'None'][i % 2], max_meta=('add', 7)))
    put('meta_%d.blp' % i, ops.mk(data[:100], s), data[:100], m)
fp = io.BytesIO(ops.mk(data[:1000], ops.spec(400, None, dict(max_app=('int', 6)), {'m': 1})))
app = b''
for n, cn in ((100, 'zlib'), (300, 'lz4'), (900, 'zstd')):
    piece = gen.data(rng, n, 'text')
    app += piece
    fp.seek(0)
    append_fp(fp, io.BytesIO(piece), n, bp.BloscArgs(typesize=3, clevel=4, shuffle=False, cname=cn))
put('appended.blp', fp.getvalue(), data[:1000] + app, {'m': 1})
dts = ['<f8', '>i4', '|S5', '<U3', '|b1', '<c16', '<M8[ns]', '|V7',
       [('a', '<i4'), ('b', '|S3')], [('x', '>f4', (2, 2)), ('y', [('z', '<i2'), ('w', 'u1')])],
       [('t', 'u1')]]
for i, d in enumerate(dts):
    dt = np.dtype(d)
    shp = [(10,), (3, 4), (2, 3, 2), (), (0, 3)][i % 5]
    a, _, keep = npgen.array(rng, dt, shp, layout='F' if i % 3 == 1 and len(shp) > 1 else 'C')
    put('array_%d.blp' % i, bp.pack_ndarray_to_bytes(a, chunk_size=dt.itemsize * 4,
        bloscpack_args=bp.BloscpackArgs(max_app_chunks=1)), a.tobytes(), None, 'array',
        dtype=repr(dt.descr) if dt.names else dt.str, shape=list(a.shape),
        order='F' if np.isfortran(a) else 'C')
json.dump(index, open(os.path.join(C, 'index.json'), 'w'), indent=1, sort_keys=True)
print(len(index), sum(os.path.getsize(os.path.join(C, x)) for x in os.listdir(C)))
