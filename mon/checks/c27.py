"""C27: what a file claims costs no more than what it holds."""
import io
import json
import os
import resource
import select
import signal
import struct
import time
import zlib

import blosc

from bloscpack.file_io import _read_beginning

from .. import gen, ops, ref

RULE = ('a case is one small crafted file claiming to be large in one or several places; it is '
        'given to every reader in turn inside one forked process whose peak resident memory '
        'and processor time are read before and after each of them (each an evaluation); '
        'distinct by the bytes of the file')
ASSUMPTIONS = ['address space that is reserved and never touched costs nothing',
               'the claims are inside files of less than 100 KB that hold less than 1 MB of data',
               'a sink told the number of chunks by the caller reserves a list of that length']
REQUIRE = {'claims': 1000, 'many_chunks_claimed': 200, 'reservation_claimed': 150,
           'chunk_sizes_claimed': 100, 'chunk_header_claims': 200, 'metadata_claims': 150,
           'array_claims': 200, 'refused': 5000, 'succeeded': 1000, 'commands': 50, 'repeated': 50}
MB = 1 << 20
RSS = 64 * MB
CPU = 6.0


def r_beginning(d, im):
    return _read_beginning(io.BytesIO(im.img))


def r_beginning_file(d, im):
    with open(ops.write(os.path.join(d, 'b.blp'), im.img), 'rb') as fp:
        return _read_beginning(fp)


READERS = [u for u in ops.UNPACK_IMG if u is not ops.u_fp_mem_n and 'old' not in u.__name__] + \
    ops.NP_UNPACK_IMG[:3] + [r_beginning, r_beginning_file]


def measured(fn, *a):
    """(outcome, peak growth in bytes, processor seconds)"""
    r0 = resource.getrusage(resource.RUSAGE_SELF)
    try:
        fn(*a)
        o = 'ok'
    except BaseException as e:
        o = type(e).__name__
    r1 = resource.getrusage(resource.RUSAGE_SELF)
    return (o, (r1.ru_maxrss - r0.ru_maxrss) << 10,
            r1.ru_utime + r1.ru_stime - r0.ru_utime - r0.ru_stime)


def observe(ctx, img, readers):
    """Runs all readers in a child; yields what each of them cost."""
    d = ctx.dir
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (40, 41))
            for u in readers:
                os.write(wr, (json.dumps(['begin', u.__name__]) + '\n').encode())
                os.write(wr, (json.dumps(['end'] + list(measured(u, d, ops.Img(img)))) +
                              '\n').encode())
            os.write(wr, b'["done"]\n')
        finally:
            os._exit(0)
    os.close(wr)
    buf, end = b'', time.time() + 300
    try:
        while True:
            if not select.select([rd], [], [], max(0, end - time.time()))[0]:
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(rd, 65536)
            if not b:
                break
            buf += b
    finally:
        os.close(rd)
        st = os.waitpid(pid, 0)[1]
    return [json.loads(x) for x in buf.splitlines()], st


def judge(ctx, what, img, readers):
    rows, st = observe(ctx, img, readers)
    cur = None
    for r in rows:
        if r[0] == 'begin':
            cur = r[1]
        elif r[0] == 'end':
            o, mem, cpu = r[1:]
            ctx.event('evaluations')
            ctx.event('succeeded' if o == 'ok' else 'refused')
            ctx.event('memory_below_%dMB' % next(x for x in (1, 4, 16, 32, 1 << 20) if mem < x * MB))
            ctx.event('seconds_below_%s' % next(x for x in (0.02, 0.1, 0.5, 2, 1000) if cpu < x))
            ctx.check(mem < RSS, '%s: %s touched %d MB for a file of %d bytes' %
                      (what, cur, mem // MB, len(img)), outcome=o)
            ctx.check(cpu < CPU, '%s: %s took %.1f s for a file of %d bytes' %
                      (what, cur, cpu, len(img)), outcome=o)
            cur = None
    if rows and rows[-1] == ['done']:
        return
    if st == 0 and cur is None:
        raise RuntimeError('child ended early')
    ctx.fail('%s: %s did not end within its processor time or was killed (status %d)' %
             (what, cur, st))


def count(rng, small=16):
    return rng.choice([1 << rng.randrange(small, 63), (1 << rng.randrange(small, 63)) + 1,
                       rng.randrange(1 << small, 1 << rng.randrange(small + 1, 63)),
                       10 ** rng.randrange(6, 18), 2 ** 63 - 1 - rng.randrange(1000),
                       2 ** 31, 2 ** 32, 2 ** 27, 2 ** 28, 2 ** 25, 2 ** 26])


def u32(rng):
    return rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, ref.MAXBUF, 2 ** 24, 2 ** 27, 2 ** 29, 2 ** 30,
                       rng.randrange(2 ** 24, 2 ** 32)])


def chunk_of(rng, n=None):
    data = gen.data(rng, rng.choice([1, 100, 1000]) if n is None else n)
    return blosc.compress(data, **gen.blosc_args(rng))


def claim(ctx):
    """(what, image)"""
    rng = ctx.rng
    cks = rng.choice(['None', 'None', 'adler32', 'sha1'])
    chunks = [chunk_of(rng) for _ in range(rng.choice([1, 1, 2, 5]))]
    k = rng.randrange(8)
    if k < 2:
        n = count(rng)
        ctx.event('many_chunks_claimed')
        if rng.random() < 0.5:
            return 'nchunks=%d without offsets' % n, ref.build(
                chunks, checksum=cks, offsets=False, nchunks=n,
                metadata=rng.choice([None, {'a': 1}]))
        app = rng.choice([0, 0, count(rng)])
        if n + app > ref.MAXI64:
            app = 0
        head = ref.header(offsets=True, metadata=False, checksum='None', typesize=1,
                          chunk_size=100, last_chunk=100, nchunks=n, max_app=app)
        body = b''.join(struct.pack('<q', rng.choice([-1, 40, 2 ** 40])) for _ in
                        range(rng.choice([0, 1, 100, 5000])))
        return 'nchunks=%d max_app=%d with offsets' % (n, app), head + body + b''.join(chunks)
    if k == 2:
        ctx.event('reservation_claimed')
        app = min(count(rng), ref.MAXI64 - len(chunks))
        head = ref.header(offsets=True, metadata=False, checksum='None', typesize=1,
                          chunk_size=100, last_chunk=100, nchunks=len(chunks), max_app=app)
        body = struct.pack('<q', rng.choice([40, -1])) * rng.choice([1, len(chunks), 3000])
        return 'max_app=%d' % app, head + body + b''.join(chunks)
    if k == 3:
        ctx.event('chunk_sizes_claimed')
        cs = min(u32(rng), ref.MAXBUF)
        return 'chunk_size=%d' % cs, ref.build(
            chunks, checksum=cks, chunk_size=cs, max_app=rng.choice([0, 3]),
            last_chunk=rng.choice([cs, 1, -1, ref.parse_chunk_header(chunks[-1])['nbytes']]),
            metadata=rng.choice([None, {'a': 1}]))
    if k == 4:
        ctx.event('chunk_header_claims')
        i = rng.randrange(len(chunks))
        c = bytearray(chunks[i])
        f = rng.choice([4, 4, 8, 12, 12])
        v = u32(rng)
        c[f:f + 4] = struct.pack('<I', v)
        if rng.random() < 0.2:
            c[4:8] = struct.pack('<I', u32(rng))
        what = 'chunk header: %s=%d' % ({4: 'nbytes', 8: 'blocksize', 12: 'ctbytes'}[f], v)
        # only the claim itself is wrong: digests are right
        off = rng.random() < 0.5
        head = ref.header(offsets=off, metadata=False, checksum=cks, typesize=8,
                          chunk_size=rng.choice([-1, ref.MAXBUF, 1000]),
                          last_chunk=-1, nchunks=len(chunks), max_app=0)
        chunks[i] = bytes(c)
        body, pos, offs = [], 32 + 8 * len(chunks), []
        for x in chunks:
            offs.append(pos)
            e = x + ref.digest(cks, x)
            pos += len(e)
            body.append(e)
        return what, head + (struct.pack('<%dq' % len(offs), *offs) if off else b'') + \
            b''.join(body)
    if k == 5:
        ctx.event('metadata_claims')
        raw = json.dumps({'a': [1, 2], 'b': 'x' * rng.randrange(100)}).encode()
        codec = rng.randrange(2)
        pay = zlib.compress(raw) if codec else raw
        sz, mx, comp = len(raw), len(pay), len(pay)
        v = u32(rng)
        f = rng.randrange(4)
        if f == 0:
            sz = v
        elif f == 1:
            mx = v
        elif f == 2:
            mx, comp = v, max(0, v - rng.randrange(100))
        else:
            sz = mx = comp = v
        h = struct.pack('<8sBBBBIII8s', b'JSON', 0, rng.choice([0, 0, 1, 6]), codec, codec,
                        sz, mx, comp, b'')
        return 'metadata sizes %d/%d/%d' % (sz, mx, comp), ref.build(
            chunks, checksum=cks, meta=h + pay + bytes(rng.choice([0, 4, 100])))
    n = rng.choice([2 ** 25, 2 ** 27, 2 ** 29, 2 ** 30, 2 ** 31, 2 ** 33, 2 ** 40, 2 ** 62, 2 ** 63 - 1,
                    rng.randrange(2 ** 26, 2 ** 34)])
    dt = rng.choice(["'|u1'", "'<f8'", "'|S100'", "'|S%d'" % min(n, 2 ** 31 - 1), "'<U1000'",
                     "[('a', '<i4'), ('b', '|V%d')]" % rng.choice([1, 1000, 2 ** 30]),
                     "[('a', '<i4', (%d,))]" % min(n, 2 ** 29)])
    shape = rng.choice([[n], [n, 1], [1, n], [n, 2], [2 ** 16, 2 ** 12], [2 ** 10] * 3, [1] * 20 + [n],
                        [n, 0], [0, n], [1], [2]])
    ctx.event('array_claims')
    return 'array of %s and %s' % (shape, dt), ref.build(
        chunks, checksum=cks, metadata={'dtype': dt, 'shape': shape, 'container': 'numpy',
                                        'order': rng.choice('CF')})


def plan(tier, seed):
    q = {'quick': 2, 'thorough': 40}[tier]
    return ([('claim', n) for n in range(1500 * q)] + [('cli', n) for n in range(40 * q)] +
            [('repeat', n) for n in range(80 * q)])


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'repeat':
        return repeated(ctx)
    what, img = claim(ctx)
    ctx.note = dict(what=what, size=len(img))
    ctx.event('claims')
    if kind == 'cli':
        commands(ctx, what, img)
    else:
        judge(ctx, what, img, READERS)
    ctx.nontrivial(img)
    ctx.sample(dict(ctx.note, case_kind=kind))


def commands(ctx, what, img):
    rng = ctx.rng
    ops.write(ctx.path('c.blp'), img)
    readers = [command(['info', 'c.blp']), command(['-f', 'd', 'c.blp', 'out']),
               command(['i', 'c.blp'])]
    ctx.event('commands', len(readers))
    judge(ctx, what, img, readers)


def command(argv):
    def u(d, im):
        import sys
        from bloscpack import cli as bcli
        os.chdir(d)
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        sys.argv = ['blpk'] + argv
        bcli.main()
    u.__name__ = ' '.join(['blpk'] + argv)
    return u


def repeated(ctx):
    """The same claim a few hundred times: nothing may pile up either."""
    rng = ctx.rng
    what, img = claim(ctx)
    u = rng.choice(READERS[:5] + ops.NP_UNPACK_IMG[:3])
    n = 200

    def many(d, im):
        for _ in range(n):
            try:
                u(d, im)
            except Exception:
                pass
    many.__name__ = '%d times %s' % (n, u.__name__)
    ctx.note = dict(what=what, size=len(img), reader=u.__name__)
    ctx.event('repeated')
    judge(ctx, what, img, [many])
    ctx.nontrivial(img, 'repeated')
