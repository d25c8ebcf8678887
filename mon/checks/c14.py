"""C14: reading has no side effects and executes nothing from the file."""
import json
import os
import pickle
import sys
import warnings

import blosc
import numpy as np

import bloscpack as bp
from bloscpack.append import append

from .. import audit, cli, core, gen, npgen, ops, ref

RULE = ('an evaluation is one read (unpack, array restore, header/offset/metadata readers, '
        'blpk info or decompress) of one valid, crafted or damaged file under a monitor of '
        'interpreter audit events, with the scratch directory and the input compared before '
        'and after; distinct by (file, route)')
ASSUMPTIONS = ['side effects of native code that bypass the interpreter are seen only in the '
               'scratch directory']
REQUIRE = {'reads': 5000, 'succeeded': 1200, 'failed': 2000, 'audit_events': 5000,
           'opens_seen': 1500, 'code_payloads': 2000, 'compile_of_payload': 300,
           'array_reads': 1500, 'cli_reads': 150, 'damaged': 500, 'truncated': 300,
           'pickles': 200, 'path_payloads': 400, 'object_arrays': 100,
           'unknown_serializer': 100, 'long_payloads': 300, 'user_codec': 300}

SENT = 'bpv_sntl'     # fits the 8 bytes of the magic and codec fields


def setup(ctx):
    warnings.simplefilter('ignore')
    audit.install()
    # warm up: everything imported lazily is loaded now
    d = os.path.join(ctx.tmp, 'warm')
    os.mkdir(d)
    a = np.zeros(5, [('a', 'i4'), ('b', 'f8')])
    img = bp.pack_ndarray_to_bytes(a)
    p = ops.write(os.path.join(d, 'w.blp'), img)
    for u in ops.UNPACK_IMG + ops.NP_UNPACK_IMG:
        u(d, ops.Img(img))
        for bad in (img[:40], b'', img[:-3], b'x' * 100):
            try:
                u(d, ops.Img(bad))
            except Exception:
                pass
    for m in (b'{', b'\xff\xfe', b'[' * 2000):
        try:
            bp.unpack_bytes_from_bytes(ref.build([blosc.compress(b'x', 1)],
                                                 meta=ref.meta_section(m, len(m))))
        except (Exception, RecursionError):
            pass
    for dt in ("'i4,i4'", "'O'", "x(", "'M8[ns]'", "{'names':['a'],'formats':['i4']}"):
        try:
            bp.unpack_ndarray_from_bytes(array_img(b'12345678', dict(
                container='numpy', dtype=dt, shape=[1], order='C')))
        except Exception:
            pass


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 60}[tier]
    return ([('code', n) for n in range(2600 * q)] + [('valid', n) for n in range(900 * q)] +
            [('damaged', n) for n in range(1200 * q)] + [('pickle', n) for n in range(300 * q)] +
            [('cli', n) for n in range(220 * q)])


def array_img(data, meta, **k):
    raw = json.dumps(meta).encode()
    return ref.build([blosc.compress(data, 1)], meta=ref.meta_section(raw, len(raw), **k))


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(r, n)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (
                st.st_mode, st.st_size, st.st_ino,
                open(p, 'rb').read() if n in fs and os.path.isfile(p) else None)
    return out


def r_headers(d, path, out):
    from bloscpack.file_io import _read_beginning
    with open(path, 'rb') as fp:
        return _read_beginning(fp)


def r_source(d, path, out):
    from bloscpack.file_io import CompressedFPSource
    with open(path, 'rb') as fp:
        return [x for x in CompressedFPSource(fp)]


def r_file(d, path, out):
    return bp.unpack_file_from_file(path, out)


def r_bytes(d, path, out):
    return bp.unpack_bytes_from_file(path)


def r_bb(d, path, out):
    with open(path, 'rb') as fp:
        b = fp.read()
    return bp.unpack_bytes_from_bytes(b)


def r_arr(d, path, out):
    return bp.unpack_ndarray_from_file(path)


def r_arrb(d, path, out):
    with open(path, 'rb') as fp:
        b = fp.read()
    return bp.unpack_ndarray_from_bytes(b)


READ = [r_headers, r_source, r_file, r_bytes, r_bb, r_arr, r_arrb]
ARR = [r_arr, r_arrb]


def read(ctx, img, what, routes=READ, note=None):
    rng = ctx.rng
    u = rng.choice(routes)
    d = ctx.path('d%d' % ctx.counters['reads'])
    os.mkdir(d)
    path = ops.write(os.path.join(d, 'in.blp'), img)
    ops.write(os.path.join(d, 'bystander'), b'leave me alone')
    out = os.path.join(d, 'out')
    before = snapshot(d)
    st = os.stat(path)
    env, cwd, mods = dict(os.environ), os.getcwd(), set(sys.modules)
    ctx.event('reads')
    ctx.event('evaluations')
    with audit.Watch() as w:
        try:
            u(d, path, out)
            ok = True
        except (core.CaseHang, KeyboardInterrupt):
            raise
        except BaseException as e:
            ok = False
            name = type(e).__name__
    ctx.event('succeeded' if ok else 'failed')
    if not ok:
        ctx.event('failed:' + name)
    if u in ARR:
        ctx.event('array_reads')
    ctx.event('audit_events', len(w.log))
    ctx.event('opens_seen', sum(1 for e in w.log if e[0] == 'open'))
    if any(e[0] == 'compile' for e in w.log):
        ctx.event('compile_of_payload')
    bad = audit.judge(w.log, [path], [out] if u is r_file else [], d, [SENT])
    ctx.check(bad is None, '%s read by %s: %s' % (what, u.__name__, bad), note=note)
    after = snapshot(d)
    after.pop('out', None)
    ctx.check(after == before, '%s read by %s changed files: %s' %
              (what, u.__name__, sorted(k for k in set(before) | set(after)
                                        if before.get(k) != after.get(k))))
    ctx.check(os.path.exists(out) <= (u is r_file), 'output created')
    s2 = os.stat(path)
    ctx.check((st.st_mtime_ns, st.st_ino, st.st_mode) ==
              (s2.st_mtime_ns, s2.st_ino, s2.st_mode), 'input was touched')
    ctx.check(dict(os.environ) == env and os.getcwd() == cwd, 'environment changed')
    new = [m for m in set(sys.modules) - mods if SENT in m]
    ctx.check(not new, 'imported %s' % new)
    ctx.nontrivial(len(img), img[-200:], u.__name__, what)
    return ok


def payload(rng, d):
    """Text that would do something observable if it were evaluated."""
    s = os.path.join(d, SENT + '_file')
    return rng.choice([
        "__import__('os').system('touch %s')" % s,
        "__import__('%s')" % SENT,
        "__import__('%s.sub')" % SENT,
        "open('%s','w').write('x')" % s,
        "open('%s','w')" % s,
        "open('/etc/%s')" % SENT,
        "exec(\"open('%s','w')\")" % s,
        "eval(\"__import__('%s')\")" % SENT,
        "(lambda: open('%s','w'))()" % s,
        "[open('%s','w') for i in range(1)]" % s,
        "{'a': open('%s','w')}" % s,
        "[('a', open('%s','w').name)]" % s,
        "numpy.dtype('i4') if open('%s','w') else 0" % s,
        "f\"{open('%s','w')}\"" % s,
        "__import__('subprocess').Popen(['true'])",
        "__import__('socket').socket()",
        "__import__('os').remove('bystander')",
        "__import__('os').environ.update(BPV='1')",
        "print(__import__('%s'))" % SENT,
        "'i4' if __import__('%s') else 'i4'" % SENT,
        "1 + __import__('%s').x" % SENT,
        "str(__import__('%s'))" % SENT,
        "numpy.load('%s')" % s, "np.memmap('%s', mode='w+', shape=3)" % s,
        "%s.Type" % SENT, "%s:Type" % SENT, "numpy.%s" % SENT, "<class '%s.T'>" % SENT,
        "!!python/object/apply:os.system ['touch %s']" % s,
        "${touch %s}" % s, "`touch %s`" % s, "; touch %s" % s, "| touch %s" % s,
        "{0.__class__.__mro__}", "%(x)s %s %n", "\nimport %s\n" % SENT, "import %s" % SENT,
        "import os; os.system('touch %s')" % s, "@__import__('%s')\ndef f(): pass" % SENT])


def paths(rng, d):
    return rng.choice([os.path.join(d, SENT), '../' + SENT, '/tmp/' + SENT, SENT,
                       'file://' + os.path.join(d, 'bystander'), 'http://127.0.0.1:9/' + SENT,
                       os.path.join(d, 'bystander'), 'bystander', '/etc/passwd', '/dev/null',
                       '\\\\host\\share', '//host/x', 'bystander\x00.x', '~/' + SENT])


def place(rng, text, meta):
    """Puts the text somewhere into array metadata."""
    meta = dict(meta)
    k = rng.randrange(12)
    if k <= 3:
        meta['dtype'] = text
    elif k == 4:
        meta['dtype'] = repr(text)
    elif k == 5:
        meta['dtype'] = repr([(text, '<i4')])
    elif k == 6:
        meta['dtype'] = '[(%s, "<i4")]' % text
    elif k == 7:
        meta['order'] = text
    elif k == 8:
        meta['shape'] = rng.choice([text, [text]])
    elif k == 9:
        meta['container'] = text
    elif k == 10:
        meta[text] = text
    else:
        key = rng.choice(['__class__', '__reduce__', 'py/object', 'py/reduce', '$ref',
                          '__import__', 'filename', 'file', 'path', 'module', 'cls', 'type',
                          '__module__', 'container', 'name', 'codec', 'serializer', 'include',
                          'import', 'extends', 'source', 'href', 'url', 'uri', 'link', 'data',
                          'external', 'schema', '$schema', '$include', '<<', 'base', 'parent',
                          'plugin', 'loader', 'hook', 'eval', 'exec', 'code', 'command',
                          'filters', 'decoder', 'object_hook', 'numpy', 'dtype_module', 'memmap',
                          'attachments', 'offset_file', 'mmap', 'log', 'output', 'cache'])
        meta[key] = rng.choice([text, text, {'__class__': text}, [text, [text]], {key: text}])
    return meta


def case(ctx, kind, arg):
    globals()['case_' + kind](ctx)


def case_code(ctx):
    rng = ctx.rng
    for _ in range(2):
        n = rng.choice([1, 2, 10])
        data = gen.data(rng, n * 4)
        meta = {'container': 'numpy', 'dtype': rng.choice(["'<i4'", '<i4']), 'shape': [n],
                'order': 'C'}
        if rng.random() < 0.25:
            text = paths(rng, ctx.dir)
            ctx.event('path_payloads')
        else:
            text = payload(rng, ctx.dir)
            ctx.event('code_payloads')
        if rng.random() < 0.2:
            # the same, longer
            n = rng.choice([60, 100, 127, 255, 256, 500, 1000, 1024, 4000, 4096, 9000, 70000])
            text = rng.choice([text + ' ' * n, text + '  # ' + 'x' * n,
                               '(' + ' ' * n + text + ')', text + ' if True else ' + '0' * n])
            ctx.event('long_payloads')
        meta = place(rng, text, meta)
        k = {}
        if rng.random() < 0.1:
            k['magic'] = rng.choice([b'PICKLE', b'YAML', b'EVAL', b'PYTHON', b'BSON',
                                     SENT[:8].encode(), b'json', b'marshal'])
            ctx.event('unknown_serializer')
        if rng.random() < 0.25:
            ctx.event('user_codec')
            k['user'] = SENT[:8].encode()
        img = array_img(data, meta, **k)
        if rng.random() < 0.1:
            # the text itself as metadata, or as content
            raw = rng.choice([text.encode(), json.dumps(text).encode()])
            img = ref.build([blosc.compress(text.encode(), 1)],
                            meta=ref.meta_section(raw, len(raw), **k))
        ctx.note = dict(meta=meta, text=text, extra=repr(k))
        read(ctx, img, 'crafted file', ARR if rng.random() < 0.6 else READ)


def case_valid(ctx):
    rng = ctx.rng
    size, chunk = gen.size_and_chunk(rng, big=3000)
    if rng.random() < 0.4:
        dt = npgen.dtype(rng)
        a = np.zeros(npgen.shape(rng, 200), dt)
        img = ctx.must('packing', bp.pack_ndarray_to_bytes, a)
        ctx.note = dict(dtype=str(dt))
        if rng.random() < 0.15:
            ctx.event('object_arrays')
            n = rng.choice([1, 4])
            img = array_img(gen.data(rng, 8 * n), dict(container='numpy', dtype="'O'",
                                                       shape=[n], order='C'))
        routes = READ
    else:
        s = ops.random_spec(rng, chunk)
        img = ctx.must('packing', ops.mk, gen.data(rng, size), s)
        ctx.note = dict(spec=s)
        routes = READ
    for _ in range(2):
        read(ctx, img, 'valid file', routes)
    if rng.random() < 0.2:
        # array metadata with object dtypes must not make pointers of the bytes
        ctx.event('object_arrays')
        img = array_img(gen.data(rng, 16), dict(
            container='numpy', dtype=rng.choice(["'O'", "[('a','O'),('b','O')]", '|O']),
            shape=[rng.choice([1, 2])], order='C'))
        read(ctx, img, 'object array', ARR)


def case_damaged(ctx):
    rng = ctx.rng
    data = gen.data(rng, rng.choice([10, 100, 1000]))
    if rng.random() < 0.5:
        img = ctx.must('packing', bp.pack_ndarray_to_bytes, np.frombuffer(data, 'u1'))
    else:
        img = ctx.must('packing', ops.mk, data, ops.random_spec(rng, 100))
    f = ref.parse(img, decode=False)
    b = bytearray(img)
    if rng.random() < 0.4:
        b = b[:rng.randrange(len(b))]
        ctx.event('truncated')
    else:
        lim = f.offsets_pos
        if f.meta:
            lim = f.meta['start'] - 32 if rng.random() < 0.5 else lim
        for _ in range(rng.choice([1, 1, 2, 5])):
            p = rng.randrange(max(1, lim if rng.random() < 0.6 else len(b)))
            # sizes that would only fill memory are not the point here
            if f.meta and 32 + 12 <= p < 32 + 24 and f.meta['checksum'] == 'None':
                continue
            b[p] = rng.choice([0, 1, 255, rng.randrange(256)])
        ctx.event('damaged')
    # big reservation claims only slow things down
    if len(b) > 63 and b[3:4] == b'k' and f.meta and \
            int.from_bytes(b[32 + 16:32 + 20], 'little') > 1 << 24:
        b[32 + 18:32 + 20] = b'\0\0'
    ctx.note = dict(img=bytes(b[:200]))
    read(ctx, bytes(b), 'damaged file')


class Evil(object):
    def __init__(self, path):
        self.path = path

    def __reduce__(self):
        return (open, (self.path, 'w'))


def case_pickle(ctx):
    rng = ctx.rng
    ctx.event('pickles')
    p = pickle.dumps(Evil(os.path.join(ctx.dir, SENT)), protocol=rng.choice([0, 2, 4]))
    import base64
    import zlib
    k = rng.randrange(4)
    if k == 0:
        img = ref.build([blosc.compress(p, 1)])
    elif k == 1:
        meta = {'container': 'numpy', 'dtype': "'O'", 'shape': [1], 'order': 'C'}
        img = array_img(p, meta)
    elif k == 2:
        raw = rng.choice([p, base64.b64encode(p), zlib.compress(p)])
        img = ref.build([blosc.compress(p, 1)], meta=ref.meta_section(
            raw, len(raw), magic=rng.choice([b'JSON', b'PICKLE', b'pickle'])))
    else:
        # what python-blosc's pack_array makes
        img = ref.build([blosc.compress(p, 1), blosc.pack_array(np.arange(3))])
    ctx.note = dict(kind=k)
    read(ctx, img, 'file with a pickle')


def case_cli(ctx):
    """blpk info and decompress under the same monitor, in a forked child."""
    rng = ctx.rng
    n = rng.choice([1, 10])
    text = payload(rng, ctx.dir)
    meta = place(rng, text, {'container': 'numpy', 'dtype': "'<i4'", 'shape': [n], 'order': 'C'})
    img = array_img(gen.data(rng, n * 4), meta)
    if rng.random() < 0.3:
        img = ctx.must('packing', ops.mk, gen.data(rng, 1000), ops.random_spec(rng, 100))
    elif rng.random() < 0.2:
        img = img[:rng.randrange(len(img))]
    d = ctx.path('w')
    os.mkdir(d)
    ops.write(os.path.join(d, 'in.blp'), img)
    ops.write(os.path.join(d, 'bystander'), b'leave me alone')
    cmd = rng.choice(['info', 'i', 'd', 'decompress'])
    args = rng.choice([[], ['-v'], ['-d'], ['-n', '1']]) + [cmd, 'in.blp'] + \
        (['out'] if cmd[0] == 'd' else [])
    log_path = ctx.path('log')
    before = snapshot(d)

    def start():
        import argparse  # noqa
        audit._on[0] = log = []
        real = os._exit

        def leave(rc):
            audit._on[0] = None
            bad = audit.judge(log, [os.path.join(d, 'in.blp')],
                              [os.path.join(d, 'out')] if cmd[0] == 'd' else [], d, [SENT])
            with open(log_path, 'w') as fp:
                json.dump([bad, len(log)], fp)
            real(rc)
        os._exit = leave
    r = cli.forked(args, d, before=start)
    ctx.event('cli_reads')
    ctx.event('evaluations')
    ctx.event('reads')
    ctx.event('succeeded' if r.rc == 0 else 'failed')
    ctx.check(r.rc >= 0, 'blpk killed by a signal', out=repr(r))
    bad, n = json.load(open(log_path))
    ctx.event('audit_events', n)
    ctx.check(bad is None, 'blpk %s: %s' % (args, bad), text=text)
    after = snapshot(d)
    if cmd[0] == 'd':
        after.pop('out', None)
    ctx.check(after == before, 'blpk %s changed files: %s' % (
        args, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))))
    ctx.nontrivial('cli', args, img[-200:])
