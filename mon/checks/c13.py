"""C13: restoring an array is memory-safe and truthful whatever the file claims."""
import io
import json
import struct
import warnings

import blosc
import numpy as np

import bloscpack as bp
from bloscpack.append import append_fp
from bloscpack.abstract_io import pack
from bloscpack.args import calculate_nchunks
from bloscpack.file_io import CompressedFPSource, PlainFPSource
from bloscpack.memory_io import CompressedMemorySink, CompressedMemorySource
from bloscpack.numpy_io import unpack_ndarray

from .. import core, gen, guard, npgen, ops, ref

RULE = ('an evaluation restores an array from one file whose metadata, chunks or headers were '
        'made to disagree (or not), with NumPy\'s allocator replaced by one whose blocks end '
        'at an inaccessible page, start filled with a pattern and carry canaries; distinct by '
        '(file, route)')
ASSUMPTIONS = ['compressed payloads are what Blosc produced (the Blosc decoder itself is '
               'trusted against arbitrary payloads)',
               'MemoryError and RecursionError are acceptable refusals here']
REQUIRE = {'restored': 1500, 'refused': 5000, 'too_small': 500, 'too_large': 500,
           'consistent': 800, 'wrong_dtype': 500, 'object_dtype': 400, 'appended': 150,
           'foreign_metadata': 800, 'no_metadata': 60, 'NotANumpyArray': 800,
           'guarded_allocations': 5000, 'memory_source': 500, 'file_route': 200,
           'chunk_lies': 500, 'header_lies': 300, 'hostile_values': 800, 'deep': 20,
           'nthreads': 200, 'empty_chunks': 200, 'old_notation': 200}

ROUTES = [ops.nu_bytes, ops.nu_fp, ops.nu_bytes, ops.nu_file, ops.nu_bytes_old,
          ops.nu_file_old]
CASE_CPU = 120


def setup(ctx):
    guard.compile()
    ctx.state['guard'] = guard.Guard()
    warnings.simplefilter('ignore')


def teardown(ctx):
    g = ctx.state['guard']
    ctx.event('guarded_allocations', g.allocs)
    ctx.event('guarded_frees', g.frees)


def build():
    guard.compile()


def plan(tier, seed):
    q = {'quick': 3, 'thorough': 120}[tier]
    return ([('mismatch', n) for n in range(2500 * q)] + [('append', n) for n in range(200 * q)] +
            [('chunks', n) for n in range(1000 * q)] + [('hostile', n) for n in range(1200 * q)] +
            [('plain', n) for n in range(500 * q)] + [('object', n) for n in range(500 * q)] +
            [('lies', n) for n in range(900 * q)] + [('hlies', n) for n in range(500 * q)] +
            [('deep', n) for n in range(len(DEEP))] + [('old', n) for n in range(300 * q)])


def set_meta(img, value, max_size=None):
    """The file with other metadata (value: object, or bytes as they are)."""
    f = ref.parse(img, decode=False)
    return rebuild(f, value)


def rebuild(f, value, chunks=None, **k):
    if isinstance(value, bytes):
        raw = value
    else:
        raw = json.dumps(value).encode()
    sec = ref.meta_section(raw, len(raw), max_size=len(raw) + 3)
    h = f.h
    a = dict(checksum=h['checksum'], offsets=h['offsets'], max_app=h['max_app'],
             typesize=h['typesize'], chunk_size=h['chunk_size'], last_chunk=h['last_chunk'],
             meta=sec)
    a.update(k)
    return ref.build(chunks or [c['raw'] for c in f.chunks], **a)


def restore(ctx, img, data, what, route=None, mem=None, must_ok=False):
    """Restores and judges. data: what the chunks contain, None if undecodable."""
    rng = ctx.rng
    ctx.event('evaluations')
    u = route or rng.choice(ROUTES)
    if u in (ops.nu_file, ops.nu_file_old):
        ctx.event('file_route')
    nt = 1
    if rng.random() < 0.1:
        nt = rng.choice([2, 4])
        blosc.set_nthreads(nt)
        ctx.event('nthreads')
    try:
        with ctx.state['guard']:
            try:
                if mem is not None:
                    ctx.event('memory_source')
                    a = ops.nu_mem(ctx.dir, mem)
                else:
                    a = u(ctx.dir, ops.Img(img))
            except (MemoryError, RecursionError) as e:
                ctx.event('refused')
                ctx.event('refused:' + type(e).__name__)
                return type(e).__name__
            except (core.CaseHang, KeyboardInterrupt):
                raise
            except BaseException as e:
                if not core.is_ordinary(e):
                    ctx.fail('%s ended in %s: %s' % (what, type(e).__name__, e))
                ctx.event('refused')
                ctx.event('refused:' + type(e).__name__)
                ctx.check(not must_ok, '%s was refused: %s %s' % (what, type(e).__name__, e))
                return type(e).__name__
    finally:
        if nt > 1:
            blosc.set_nthreads(1)
    ctx.event('restored')
    ctx.check(isinstance(a, np.ndarray), '%s gave %r' % (what, type(a)))
    ctx.check(not a.dtype.hasobject, '%s gave an object array' % what)
    ctx.check(data is not None, '%s: undecodable chunks were restored to an array' % what)
    ctx.check(a.nbytes == len(data), '%s: array of %d bytes from %d bytes of chunks' %
              (what, a.nbytes, len(data)), dtype=str(a.dtype), shape=a.shape)
    got = bytes(np.ndarray((a.nbytes,), 'u1', buffer=np.ascontiguousarray(a.T) if
                           a.flags.f_contiguous and not a.flags.c_contiguous
                           else np.ascontiguousarray(a))) if a.nbytes else b''
    ctx.check(got == data, what + ': the array contains bytes that are not from the file')
    del a
    return 'ok'


def array_file(ctx, maxitems=400):
    rng = ctx.rng
    dt = npgen.dtype(rng)
    shp = npgen.shape(rng, maxitems)
    n = int(np.prod(shp))
    raw = np.zeros(n * dt.itemsize, 'u1')
    if n:
        npgen.sanitize(rng, raw, dt)
        a = np.ndarray(shp, dt, buffer=raw.data, order=rng.choice('CF'))
    else:
        a = np.zeros(shp, dt)
    chunk = max(1, rng.choice([1, 2, 3, 10, 100, n, max(1, n // 2)])) * dt.itemsize
    bpk = gen.bloscpack_args(rng)
    bpk['max_app'] = ('int', rng.choice([0, 2, 20]))
    k = dict(chunk_size=chunk, bloscpack_args=ops.B(bpk))
    b = ctx.must('packing an array', bp.pack_ndarray_to_bytes, a, **k)
    ctx.note = dict(dtype=str(dt), shape=shp, chunk=chunk, bpack=bpk)
    return a, b, dt


def mem_of(ctx, img, meta):
    """A memory source with these chunks and this metadata."""
    f = ref.parse(img)
    sink = CompressedMemorySink()
    n, c, last = calculate_nchunks(len(f.data), max(1, f.h['chunk_size']))
    pack(PlainFPSource(io.BytesIO(f.data)), sink, n, c, last, metadata=meta)
    return ops.Img(sink=sink)


def case(ctx, kind, arg):
    if kind == 'deep':
        return case_deep(ctx, arg)
    globals()['case_' + kind](ctx)


def run_both(ctx, img, meta, data, what, **k):
    rng = ctx.rng
    ctx.note['metadata'] = meta
    r = restore(ctx, set_meta(img, meta) if meta is not None else img, data, what, **k)
    if rng.random() < 0.3 and isinstance(meta, dict):
        r2 = restore(ctx, None, data, what + ' (memory)', mem=mem_of(ctx, img, meta), **k)
        ctx.check((r == 'ok') == (r2 == 'ok'), '%s: file %s, memory %s' % (what, r, r2))
    ctx.nontrivial(repr(meta), len(img), what)
    return r


def case_mismatch(ctx):
    rng = ctx.rng
    a, img, dt = array_file(ctx)
    f = ref.parse(img)
    data = f.data
    meta = json.loads(json.dumps(f.meta['value']))
    shape = list(a.shape)
    k = rng.randrange(8)
    if k == 0:
        ctx.event('consistent')
        what = 'unaltered metadata'
        if rng.random() < 0.5:
            meta['order'] = rng.choice('CFAK')
        else:
            n = int(np.prod(shape))
            meta['shape'] = rng.choice([[n], n, [1, n], [n, 1, 1]])
        # a legal equivalent description: accepted or refused, but truthful
    elif k <= 2:
        what = 'shape too large'
        if not shape:
            shape = [1]
        i = rng.randrange(len(shape))
        shape[i] = rng.choice([shape[i] + 1, shape[i] * 2 + 1, shape[i] + 1000, 70000,
                               2 ** 31, 2 ** 40, 2 ** 62, 2 ** 63, 2 ** 65])
        meta['shape'] = shape
    elif k == 3:
        what = 'shape too small'
        if not shape or not all(shape):
            shape = [0]
        i = rng.randrange(len(shape))
        shape[i] = rng.choice([0, shape[i] - 1, shape[i] // 2])
        meta['shape'] = rng.choice([shape, shape, [], [0], 0, [1]])
    elif k == 4:
        what = 'odd shape'
        meta['shape'] = rng.choice([[-1], -1, [-5, -5], None, '10', [1.5], 2.0, [None], {},
                                    {'a': 1}, [[2]], [[1], [2]], True, [True, 3], 'x', '',
                                    [1] * 33, [1] * 32, [2] * 70, ['3'], float(len(data))])
    elif k == 5:
        what = 'larger dtype'
        t = rng.choice(['<f8', '>c16', 'S%d' % (dt.itemsize + 1), 'V%d' % (dt.itemsize * 3),
                        'U%d' % (dt.itemsize + 2), 'V100000', 'S2147483647', 'V1000000000'])
        meta['dtype'] = repr(t)
    elif k == 6:
        what = 'smaller dtype'
        t = rng.choice(['u1', '|b1', 'S1', 'V1', '<i2', 'S0', 'V0', 'U0', 'V%d' %
                        max(1, dt.itemsize - 1)])
        meta['dtype'] = repr(t)
    else:
        what = 'another dtype'
        t = npgen.dtype(rng)
        meta['dtype'] = repr(t.descr if t.names else t.str)
    if k in (5, 6, 7):
        ctx.event('wrong_dtype')
    if k in (1, 2, 5):
        ctx.event('too_large')
    if k in (3, 6):
        ctx.event('too_small')
    run_both(ctx, img, meta, data, what)


def case_append(ctx):
    rng = ctx.rng
    a, img, dt = array_file(ctx)
    f = ref.parse(img)
    if not f.h['offsets'] or not f.data:
        return
    fp = io.BytesIO(img)
    size = rng.choice([1, 8, dt.itemsize, dt.itemsize * 3, len(f.data), 5000])
    piece = gen.data(rng, size)
    try:
        append_fp(fp, io.BytesIO(piece), size)
    except Exception:
        return
    img = fp.getvalue()
    ctx.event('appended')
    r = restore(ctx, img, f.data + piece, 'array with %d appended bytes' % size)
    ctx.check(r != 'ok', 'appended data came back as part of the array')
    ctx.nontrivial('append', len(img), size)


def case_chunks(ctx):
    """Any chunking against any claim."""
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3, 5])
    mode = rng.randrange(3)
    sizes = [rng.choice([1, 7, 8, 16, 100, 1000, 4096, 5000]) for _ in range(n)] if mode \
        else [rng.choice([8, 100])] * n
    if rng.random() < 0.25:
        # empty chunks may stand anywhere
        sizes[rng.choice([-1, rng.randrange(n)])] = 0
        ctx.event('empty_chunks')
    pieces = [gen.data(rng, s) for s in sizes]
    comp = [blosc.compress(p, **gen.blosc_args(rng)) for p in pieces]
    total = sum(sizes)
    claim = max(0, total + rng.choice([0, 0, 0, 1, -1, 8, -8, 4096, -4096, -total, total,
                                       -sizes[-1], 10 ** 6, 10 ** 9]))
    meta = {'container': 'numpy', 'dtype': rng.choice(["'|u1'", "'|S1'", '|u1']),
            'shape': [claim], 'order': rng.choice('CF')}
    ctx.event('consistent' if claim == total else
              'too_large' if claim > total else 'too_small')
    raw = json.dumps(meta).encode()
    cs = max(sizes)
    img = ref.build(comp, checksum=rng.choice(gen.CHECKSUMS), offsets=rng.random() < 0.5,
                    chunk_size=rng.choice([cs, cs, -1]), last_chunk=sizes[-1],
                    meta=ref.meta_section(raw, len(raw)))
    ctx.note = dict(sizes=sizes, claim=claim, meta=meta)
    r = restore(ctx, img, b''.join(pieces), 'chunks of %s for %d bytes' % (sizes, claim),
                must_ok=claim == total and total > 0)
    if claim != total:
        ctx.check(r != 'ok', 'restored although sizes disagree')
    if rng.random() < 0.3 and total:
        sink = CompressedMemorySink()
        data = b''.join(pieces)
        nc, c, last = calculate_nchunks(total, max(1, sizes[0]))
        pack(PlainFPSource(io.BytesIO(data)), sink, nc, c, last, metadata=meta)
        restore(ctx, None, data, 'memory chunks for %d bytes' % claim,
                mem=ops.Img(sink=sink), must_ok=claim == total)
    ctx.nontrivial('chunks', sizes, claim, meta)


HOSTILE_DTYPES = [
    "'O'", "'|O'", "'|O8'", "'object'", "[('a','O')]", "[('a','<i4'),('b','|O')]",
    "[('a',[('b','O')])]", "[('a','O',(2,))]", "[['a','O']]", "('O',(2,))", "('O',2)",
    "{'names':['a'],'formats':['O']}", "{'names':['a'],'formats':['O'],'offsets':[3]}",
    "{'a':('O',0)}", "'O,O'", "'i4,O'", "'2O'", "'(2,3)O'", "[('a','<i4'),('','|V4'),('b','O')]",
    "('O',{'x':('<i4',0)})", "('<i8','O')", "(('O'),())", "[('','|O')]"]
HOSTILE_OTHER = [
    "'i4,i4'", "None", "1", "'V8'", "('V8',8)", "('<i4',(2,2))", "('<i4',0)", "('<i4',())",
    "[('a','<i4',0)]", "[('a','<i4',(0,))]", "[]", "{}", "()", "''", "'|V0'", "[('a','|V0')]",
    "('V8',{'a':('<i4',6)})", "('<i8',[('a','<i4'),('b','<i4')])", "('<i4',[('a','<i8')])",
    "{'names':['a','b'],'formats':['<i4','<i4'],'offsets':[0,2]}",
    "{'names':['a'],'formats':['<i4'],'offsets':[-4]}",
    "{'names':['a'],'formats':['<i4'],'offsets':[100],'itemsize':8}",
    "{'names':['a'],'formats':['<i4'],'itemsize':1000000}",
    "{'names':['a'],'formats':['<i4'],'offsets':[2147483647]}",
    "[('a','<i4'),('a','<i4')]", "[('a','<i4',2147483647)]", "[('a','V2147483647')]",
    "[('', '|V4'), ('', '|V4')]", "[('a','<i4',-1)]", "'M8[ns]'", "'M8[foo]'", "'S-1'", "'<x9'",
    "b'<i4'", "'\\x00'", "float", "int()", "__import__('os')", "numpy.float64", "1+1j",
    "True", "...", "[('a','<i4'),('','|V12'),('b','<i4')]", "'a' 'b'", "'i4'*5", "-1",
    "'S99999999999999999999'", "'i99'", "'T'", "'Q'", "'=f8'", "'@i4'", "[1]", "[None]",
    "[[]]", "[()]", "[('a',)]", "[('a','i4','x')]", "[(('t','a'),'<i4')]", "[((1,2),'<i4')]"]
NONSTR = [None, 1, 1.5, True, [], {}, [[]], [['a']], [['a', 'O']], [['a', '<i4', 2]],
          [['a', [['b', 'O']]]], 'O', '|O8', 'object', {'names': ['a'], 'formats': ['O']},
          [None], [1, 2], [['a', 5]], 'not a type', '', [['', 'O']], ['<f8'], [['a', '<i4'],
          ['b', '|O8']], {'a': ['O', 0]}]


def case_hostile(ctx):
    rng = ctx.rng
    a, img, dt = array_file(ctx)
    data = ref.parse(img).data
    meta = json.loads(json.dumps(ref.parse(img, decode=False).meta['value']))
    k = rng.randrange(6)
    if k == 0:
        meta['dtype'] = rng.choice(HOSTILE_OTHER + HOSTILE_DTYPES)
    elif k == 1:
        meta['dtype'] = rng.choice(NONSTR)
    elif k == 2:
        meta['order'] = rng.choice(['C', 'F', 'A', 'K', 'c', 'f', '', None, 1, [], 'CF', 'X',
                                    True, {}, 'Fortran', 'é', b''.decode()])
    elif k == 3:
        del meta[rng.choice(['dtype', 'shape', 'order'])]
    elif k == 4:
        for key in rng.sample(['dtype', 'shape', 'order'], 2):
            meta[key] = gen.json_value(rng)
    else:
        meta['extra'] = gen.json_value(rng)
        meta['shape'] = gen.json_value(rng)
    if k in (0, 1):
        # make sizes agree where possible, so that only the type is odd
        try:
            import ast
            t = np.dtype(ast.literal_eval(meta['dtype']) if k == 0 else meta['dtype'])
            if t.itemsize and len(data) % t.itemsize == 0:
                meta['shape'] = [len(data) // t.itemsize]
        except Exception:
            pass
    ctx.event('hostile_values')
    run_both(ctx, img, meta, data, 'hostile metadata')


def case_object(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 5, 50])
    mult = rng.choice([8, 8, 16, 12, 24, 48])
    data = gen.data(rng, n * mult)
    comp = [blosc.compress(data, 8)]
    if rng.random() < 0.3:
        comp = [blosc.compress(data[:8], 8)] + ([blosc.compress(data[8:], 8)]
                                                if len(data) > 8 else [])
    d = rng.choice(HOSTILE_DTYPES + [x for x in NONSTR if 'O' in repr(x)])
    meta = {'container': 'numpy', 'dtype': d, 'shape': [n], 'order': rng.choice('CF')}
    raw = json.dumps(meta).encode()
    img = ref.build(comp, checksum=rng.choice(gen.CHECKSUMS), meta=ref.meta_section(raw, len(raw)))
    ctx.note = dict(dtype=d, n=n, mult=mult)
    ctx.event('object_dtype')
    r = restore(ctx, img, data, 'object dtype %r' % (d,))
    if rng.random() < 0.3:
        sink = CompressedMemorySink()
        nc, c, last = calculate_nchunks(len(data), len(data))
        pack(PlainFPSource(io.BytesIO(data)), sink, nc, c, last, metadata=meta)
        restore(ctx, None, data, 'object dtype %r in memory' % (d,), mem=ops.Img(sink=sink))
    # packing object arrays
    b = np.empty(n, 'O')
    b[:] = rng.choice([1, 'x', None])
    if rng.random() < 0.5:
        b = np.zeros(n, [('a', 'i4'), ('o', 'O')])
    p = rng.choice(ops.NP_PACK_IMG)
    ctx.must_refuse('packing an object array', p, ctx.dir, b, {})
    ctx.nontrivial('object', repr(d), n, mult, r)


FOREIGN = [None, {}, [], '', 0, 1, True, False, 'numpy', ['numpy'], ['container'],
           'container', {'container': None}, {'container': 'Numpy'}, {'container': 'numpy '},
           {'container': ['numpy']}, {'container': {}}, {'dtype': "'<i4'", 'shape': [2],
           'order': 'C'}, {'Container': 'numpy'}, [['container', 'numpy']], 'container numpy',
           {'container': 'pandas', 'dtype': "'<i4'", 'shape': [2], 'order': 'C'}, 1.5,
           {'container': True}, {'container': 0}, {'numpy': 'container'}]


def case_plain(ctx):
    """Files without NumPy metadata are reported as holding no array."""
    rng = ctx.rng
    size, chunk = gen.size_and_chunk(rng, big=2000)
    data = gen.data(rng, size)
    s = ops.random_spec(rng, chunk, meta=False)
    s['ma'] = None
    if s['bpack'] and s['bpack']['max_app'][0] == 'int':
        s['bpack']['max_app'] = ('int', 3)
    k = rng.random()
    u = rng.choice(ROUTES)
    if k < 0.2:
        s['meta'] = None
        ctx.event('no_metadata')
    else:
        s['meta'] = rng.choice(FOREIGN) if k < 0.7 else gen.json_value(rng)
        if isinstance(s['meta'], dict) and s['meta'].get('container') == 'numpy':
            s['meta'] = {}
    ctx.event('foreign_metadata')
    ctx.note = dict(size=size, meta=s['meta'])
    img = ctx.must('packing', ops.mk, data, s)
    r = restore(ctx, img, data, 'file without array metadata', route=u)
    ctx.check(r == 'NotANumpyArray', 'a file with metadata %r is reported as %s, not as no '
              'NumPy array' % (s['meta'], r), route=u.__name__)
    ctx.event('NotANumpyArray')
    if s['meta'] is not None and rng.random() < 0.3 and size:
        sink = CompressedMemorySink()
        n, c, last = calculate_nchunks(size, chunk)
        pack(PlainFPSource(io.BytesIO(data)), sink, n, c, last, metadata=s['meta'])
        r = restore(ctx, None, data, 'memory without array metadata', mem=ops.Img(sink=sink))
        ctx.check(r == 'NotANumpyArray', 'memory with metadata %r is reported as %s' %
                  (s['meta'], r))
    ctx.nontrivial('plain', size, repr(s['meta']), u.__name__)


def case_lies(ctx):
    """Blosc headers of chunks that state other sizes; checksums are valid."""
    rng = ctx.rng
    a, img, dt = array_file(ctx)
    f = ref.parse(img)
    if not f.data:
        return
    chunks = [c['raw'] for c in f.chunks]
    i = rng.randrange(len(chunks))
    c = bytearray(chunks[i])
    k = rng.randrange(5)
    nb = f.chunks[i]['nbytes']
    if k == 0:
        # a flipped bit, or another size altogether
        bit = nb ^ (1 << rng.choice([rng.randrange(32), rng.randrange(16, 32)]))
        struct.pack_into('<I', c, 4, rng.choice([0, 1, max(0, nb - 1), nb + 1, nb * 2, nb + 16,
                                                 2 ** 31 - 1, 2 ** 32 - 1, nb + 4096, bit, bit,
                                                 bit, nb | 1 << 24]) & 0xffffffff)
    elif k == 1:
        # another chunk of another size in its place
        size = rng.choice([0, 1, nb + 1, nb * 2, nb + 4096, max(0, nb - 1)])
        if rng.random() < 0.05:
            # much larger, and of the right size in the lower bits
            size = nb + (1 << rng.choice([16, 20, 24]))
            ctx.event('large_chunks')
            c = bytearray(blosc.compress(bytes(size), 1, clevel=9))
        else:
            c = bytearray(blosc.compress(gen.data(rng, size), 1,
                                         **{'clevel': rng.choice([0, 9])}))
    elif k == 2:
        chunks.insert(i, bytes(c))      # one chunk too many
    elif k == 3 and len(chunks) > 1:
        chunks.pop(i)
        i = 0
        c = bytearray(chunks[0])
    else:
        j = rng.randrange(len(chunks))  # swapped
        c = bytearray(chunks[j])
    chunks[i] = bytes(c)
    img = rebuild(f, f.meta['value'], chunks=chunks)
    try:
        data = ref.parse(img).data
    except ref.Bad:
        data = None
    ctx.event('chunk_lies')
    ctx.note.update(lie=k, chunk=i)
    restore(ctx, img, data, 'chunk lie %d' % k)
    ctx.nontrivial('lies', k, i, len(img), bytes(c[:16]))


def case_hlies(ctx):
    """The file header states other counts and sizes."""
    rng = ctx.rng
    a, img, dt = array_file(ctx)
    f = ref.parse(img)
    b = bytearray(img)
    k = rng.randrange(4)
    n = f.h['nchunks']
    if k == 0:
        v = rng.choice([0, 1, max(0, n - 1), n + 1, n * 2, -1, 2 ** 40])
        struct.pack_into('<q', b, 16, v)
        if not f.h['offsets'] and v == 0:
            pass
    elif k == 1:
        struct.pack_into('<i', b, 8, rng.choice([-1, 0, 1, f.h['chunk_size'] * 2,
                                                 f.h['chunk_size'] + 1]))
    elif k == 2:
        struct.pack_into('<i', b, 12, rng.choice([-1, 0, 1, f.h['chunk_size']]))
    else:
        struct.pack_into('<q', b, 24, rng.choice([0, 1, f.h['max_app'] + 1, 2 ** 40]))
    img = bytes(b)
    try:
        data = ref.parse(img).data
    except ref.Bad:
        data = None
    ctx.event('header_lies')
    ctx.note.update(lie=k)
    restore(ctx, img, data, 'header lie %d' % k)
    ctx.nontrivial('hlies', k, img[:32], len(img))


DEEP = [b'[' * 100000, b'[' * 500 + b']' * 500, b'{"a":' * 3000 + b'1' + b'}' * 3000] + [
    json.dumps({'container': 'numpy', 'dtype': d, 'shape': s, 'order': 'C'}).encode()
    for d, s in [('(' * 300 + ')' * 300, [1]), ('[' * 90 + ']' * 90, [1]),
                 ('-' * 5000 + '1', [1]), ('(' * 100000, [1]), ("'a'" * 20000, [1]),
                 ("[('a'," * 80 + "'O'" + ')]' * 80, [1]),
                 ("[('a'," * 60 + "'<i8'" + ')]' * 60, [1]),
                 ("'i4" + ',i4' * 5000 + "'", [1]), ('1+' * 3000 + '1', [1]),
                 ("'" + '(2,)' * 200 + "i4'", [1])]] + [
    json.dumps({'container': 'numpy', 'dtype': d, 'shape': [1], 'order': 'C'}).encode()
    for d in ([[['a', '<i8']]], [['a'] * 1000], [['a', [['b', [['c', [['d', 'O']]]]]]]])] + [
    b'{"container":"numpy","dtype":' + b'[["a",' * 900 + b'"O"' + b']]' * 900 +
    b',"shape":[1],"order":"C"}',
    b'{"container":"numpy","dtype":"\'<i8\'","shape":' + b'[' * 800 + b']' * 800 +
    b',"order":"C"}',
    b'{"container":"numpy","dtype":"\'<i8\'","shape":[1],"order":"C","container":"x"}',
    b'{"container":"numpy","dtype":"\'<i8\'","shape":[NaN],"order":"C"}',
    b'{"container":"numpy","dtype":"\'<i8\'","shape":[Infinity],"order":"C"}',
    b'{"container":"numpy","dtype":"\'<i8\'","shape":[1e400],"order":"C"}',
    b'{"container":"numpy","dtype":"\'<i8\'","shape":[1' + b'0' * 5000 + b'],"order":"C"}']


def case_deep(ctx, i):
    data = bytes(range(8))
    raw = DEEP[i]
    img = ref.build([blosc.compress(data, 8)], meta=ref.meta_section(raw, len(raw)))
    ctx.event('deep')
    for u in (ops.nu_bytes, ops.nu_file):
        restore(ctx, img, data, 'deeply nested or extreme metadata %r' % raw[:60], route=u)
    ctx.nontrivial('deep', i)


def case_old(ctx):
    """Notations of earlier releases, sizes wrong or right."""
    rng = ctx.rng
    n = rng.choice([1, 3, 10, 100])
    wrong = rng.choice([0, 0, 1, -1, 7])
    dt, item = rng.choice([('<f8', 8), ('|u1', 1), ([['a', '<i4'], ['b', '<f8']], 12),
                           ([['a', '<i2', 3]], 6), ([['a', [['b', '<i4'], ['c', '|u1']]]], 5)])
    data = gen.data(rng, n * item)
    meta = {'container': 'numpy', 'dtype': dt, 'shape': [max(0, n + wrong)], 'order': 'C'}
    raw = json.dumps(meta).encode()
    img = ref.build([blosc.compress(data, 8)], meta=ref.meta_section(raw, len(raw)))
    ctx.event('old_notation')
    ctx.note = dict(meta=meta, n=n)
    r = restore(ctx, img, data, 'old notation', must_ok=not wrong)
    if wrong:
        ctx.check(r != 'ok', 'restored although sizes disagree')
    ctx.nontrivial('old', repr(meta), data)
