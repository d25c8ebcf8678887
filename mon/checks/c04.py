"""C04: files that follow the format are readable whoever wrote them."""
import ast
import hashlib
import json
import os
import zlib

import blosc
import numpy as np

from .. import gen, npgen, ops, ref
from ..core import VERIF

RULE = ('a case is one file made by the independent writer (or stored from the pinned '
        'release) and read through the library routes; distinct by the choices of the '
        'writer; non-trivial when it holds data')
ASSUMPTIONS = ['the JSON identifier is padded with NUL bytes as all releases write it (the '
               'README speaks of whitespace)']
REQUIRE = {'foreign_reads': 3000, 'golden_reads': 150, 'legacy_arrays': 150,
           'unknown_chunk_size': 200, 'unknown_offsets': 200, 'mixed_chunks': 500,
           'versions_refused': 40, 'unknown_nchunks_refused': 40, 'zero_chunks': 20,
           'trailing': 50, 'garbage_prealloc': 100,
           'empty_chunks': 400, 'many_chunks': 60}


def index():
    with open(os.path.join(VERIF, 'corpus', 'index.json')) as fp:
        return json.load(fp)


def plan(tier, seed):
    out = [('golden', i) for i in range(len(index()))]
    for v in list(range(0, 3)) + list(range(4, 256)):
        out.append(('version', v))
    for n in range({'quick': 60, 'thorough': 1000}[tier]):
        out.append(('nchunks', n))
    for n in range({'quick': 20000, 'thorough': 400000}[tier]):
        out.append(('foreign', n))
    for n in range({'quick': 6000, 'thorough': 60000}[tier]):
        out.append(('legacy', n))
    return out


def blocks(ctx, rng, total=None):
    """Random pieces, each compressed with settings of its own."""
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7, rng.randrange(1, 30)])
    sizes = [0, 1, 5, 16, 100, rng.randrange(1, 3000)]
    if rng.random() < 0.006:
        n = rng.choice([64, 100, 255, 256, 300, 1030, rng.randrange(40, 2100)])
        sizes = rng.choice([[0, 1, 5], [3], [16, 17]])
        ctx.event('many_chunks')
    pieces = [gen.data(rng, rng.choice(sizes)) for _ in range(n)]
    comp = []
    for p in pieces:
        a = gen.blosc_args(rng)
        comp.append(blosc.compress(p, **a))
    if n > 1:
        ctx.event('mixed_chunks')
    if n == 0:
        ctx.event('zero_chunks')
    return pieces, comp


def make(ctx, rng, comp, value=None, meta=None):
    sizes = [ref.parse_chunk_header(c)['nbytes'] for c in comp]
    uniform = len(set(sizes[:-1])) <= 1 and (len(sizes) < 2 or sizes[-1] <= sizes[0])
    cs, lc = None, None
    if not uniform or rng.random() < 0.2:
        cs = -1
        lc = rng.choice([None, -1])
        ctx.event('unknown_chunk_size')
    elif rng.random() < 0.2:
        lc = -1
    if not sizes:
        cs, lc = rng.choice([(0, 0), (-1, -1), (100, 0)])
    fn = None
    offs = rng.random() < 0.7
    if offs and rng.random() < 0.3:
        ctx.event('unknown_offsets')
        if rng.random() < 0.6:
            def fn(o):
                return [-1] * len(o)
        else:
            mask = [rng.random() < 0.5 for _ in range(10000)]

            def fn(o):
                return [-1 if mask[i] else x for i, x in enumerate(o)]
    if meta is None and value is not None:
        meta = ref.foreign_meta(rng, value)
        h = ref.parse_meta(meta, 0)
        tail = meta[32 + h['comp_size']:32 + h['max_size']]
        ctx.event('garbage_prealloc', bool(tail.strip(b'\0')))
    img = ref.build(comp, checksum=rng.choice(gen.CHECKSUMS), offsets=offs, meta=meta,
                    max_app=rng.choice([0, 0, 1, 5, 40]) if offs else 0,
                    typesize=rng.choice([0, 1, 8, 255, rng.randrange(256)]),
                    chunk_size=cs, last_chunk=lc, offset_values=fn)
    if rng.random() < 0.2:
        img += rng.randbytes(rng.choice([1, 4, 16, 200]))
        ctx.event('trailing')
    return img


def read_all(ctx, img, data, value, routes):
    for u in routes:
        got, m = ctx.must('reading through %s' % u.__name__, u, ctx.dir, ops.Img(img))
        ctx.event('evaluations')
        ctx.check(got == data, 'content differs through %s: %d bytes instead of %d' %
                  (u.__name__, len(got), len(data)))
        ctx.check(gen.same_json(m, value), 'metadata differ through %s' % u.__name__,
                  got=m, want=value)


def case(ctx, kind, arg):
    rng = ctx.rng
    ctx.note = {'kind': kind, 'arg': arg}
    if kind == 'golden':
        e = index()[arg]
        ctx.note['file'] = e['file']
        img = ops.read(os.path.join(VERIF, 'corpus', e['file']))
        if e['kind'] == 'bytes':
            for u in ops.UNPACK_IMG:
                got, m = ctx.must('reading %s' % e['file'], u, ctx.dir, ops.Img(img))
                ctx.event('golden_reads')
                ctx.event('evaluations')
                ctx.check(hashlib.sha256(got).hexdigest() == e['sha256'] and
                          len(got) == e['size'], 'content of %s differs' % e['file'])
                ctx.check(gen.same_json(m, e['metadata']), 'metadata of %s differ' % e['file'])
        else:
            d = e['dtype']
            want = np.dtype(ast.literal_eval(d) if d.startswith('[') else d)
            for u in ops.NP_UNPACK_IMG:
                a = ctx.must('reading %s' % e['file'], u, ctx.dir, ops.Img(img))
                ctx.event('golden_reads')
                ctx.event('evaluations')
                dd = npgen.dtype_diff(want, a.dtype)
                ctx.check(dd is None and list(a.shape) == e['shape'],
                          'dtype or shape of %s differ' % e['file'], diff=dd)
                ctx.check(hashlib.sha256(a.tobytes()).hexdigest() == e['sha256'],
                          'values of %s differ' % e['file'])
                ctx.check(a.flags['F_CONTIGUOUS' if e['order'] == 'F' else 'C_CONTIGUOUS'],
                          'order of %s differs' % e['file'])
        ctx.nontrivial(e['file'])
    elif kind == 'version':
        comp = [blosc.compress(b'some data' * 9)]
        img = ref.build(comp, version=arg, offsets=rng.random() < .5,
                        metadata={'a': 1} if rng.random() < .5 else None)
        for u in ops.UNPACK_IMG:
            ctx.must_refuse('format version %d through %s' % (arg, u.__name__), u,
                            ctx.dir, ops.Img(img))
        ctx.event('versions_refused')
        ctx.event('evaluations')
        ctx.nontrivial('version', arg)
    elif kind == 'nchunks':
        pieces, comp = blocks(ctx, rng)
        offs = rng.random() < 0.5
        img = bytearray(ref.build(comp, offsets=offs, checksum=rng.choice(gen.CHECKSUMS),
                                  metadata={'a': 1} if rng.random() < .5 else None,
                                  chunk_size=-1, last_chunk=-1))
        img[16:24] = b'\xff' * 8
        for u in ops.UNPACK_IMG:
            ctx.must_refuse('unknown number of chunks through %s' % u.__name__, u,
                            ctx.dir, ops.Img(bytes(img)))
        ctx.event('unknown_nchunks_refused')
        ctx.event('evaluations')
    elif kind == 'foreign':
        pieces, comp = blocks(ctx, rng)
        value = gen.metadata(rng) if rng.random() < 0.6 else None
        img = make(ctx, rng, comp, value)
        ctx.note.update(head=img[:32].hex(), sizes=[len(p) for p in pieces], value=value)
        read_all(ctx, img, b''.join(pieces), value, rng.sample(ops.UNPACK_IMG, 2))
        ctx.event('foreign_reads')
        ctx.sample(ctx.note)
        if any(pieces):
            ctx.nontrivial(img[:40], [c[:16] for c in comp])
    else:
        legacy(ctx)


def as_lists(dt):
    """The dtype as nested JSON lists, the notation used before 0.7.2."""
    if dt.names is None:
        return dt.str
    out = []
    for nm in dt.names:
        f = dt.fields[nm][0]
        if f.subdtype is not None:
            out.append([nm, as_lists(f.subdtype[0]), list(f.subdtype[1])])
        else:
            out.append([nm, as_lists(f)])
    return out


def titled(dt):
    if dt.subdtype is not None:
        return titled(dt.subdtype[0])
    return any(len(dt.fields[n]) > 2 or titled(dt.fields[n][0]) for n in dt.names or ())


def legacy(ctx):
    rng = ctx.rng
    dt = npgen.basic(rng) if rng.random() < 0.5 else npgen.struct(rng, padded=False)
    a, desc, keep = npgen.array(rng, dt, layout=rng.choice('CCF'))
    raw = a.tobytes('A' if np.isfortran(a) else 'C')
    style = rng.choice(['repr', 'list', 'list'])
    if titled(dt):
        style = 'repr'
    if style == 'repr':
        d = repr(dt.descr) if dt.names is not None else repr(dt.str)
        if rng.random() < 0.3:
            d = d.replace("'<", "u'<") if dt.names is None else d
    else:
        d = as_lists(dt)
    meta = {'dtype': d, 'shape': list(a.shape), 'order': 'F' if np.isfortran(a) else 'C',
            'container': 'numpy'}
    if rng.random() < 0.3:
        meta['extra'] = 'unknown key'
    # cut anywhere, also inside an item
    cuts = sorted(rng.randrange(0, len(raw) + 1) for _ in range(rng.choice([0, 0, 1, 3])))
    if len(raw) and rng.random() < 0.01:
        cuts = sorted(rng.randrange(0, len(raw) + 1) for _ in range(rng.randrange(40, 600)))
        ctx.event('many_chunks')
    if cuts and rng.random() < 0.3:
        cuts = sorted(cuts + [rng.choice(cuts)])        # an empty chunk
        ctx.event('empty_chunks')
    pieces = [raw[i:j] for i, j in zip([0] + cuts, cuts + [len(raw)])]
    comp = [blosc.compress(p, **gen.blosc_args(rng)) for p in pieces]
    img = make(ctx, rng, comp, meta)
    ctx.note.update(desc, notation=style, meta=meta)
    u = rng.choice(ops.NP_UNPACK_IMG)
    b = ctx.must('restoring a %s-notation array' % style, u, ctx.dir, ops.Img(img))
    diff = npgen.diff(np.asfortranarray(a) if np.isfortran(a) else a, b)
    ctx.check(diff is None, 'array differs (%s notation): %s' % (style, diff))
    ctx.event('legacy_arrays')
    ctx.event('evaluations')
    if a.size:
        ctx.nontrivial(desc, style, len(pieces))
