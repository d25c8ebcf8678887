"""C28: any file object will do, and is used only as such."""
import bz2
import gzip
import io
import mmap
import os
import socket
import tempfile
import threading
import zipfile

import numpy as np

from bloscpack.abstract_io import pack, unpack
from bloscpack.append import append_fp, _rewrite_metadata_fp
from bloscpack.file_io import (CompressedFPSink, CompressedFPSource, PlainFPSink,
                               PlainFPSource, _read_beginning)
from bloscpack.memory_io import CompressedMemorySink, PlainMemorySink
from bloscpack.numpy_io import pack_ndarray, unpack_ndarray

from .. import core, gen, hist, ops, ref

RULE = ('a case gives one operation a file object: of the standard library (pipes, sockets, '
        'unbuffered, memory, spooled, mapped, archive members, wrapped sockets) or a recorder that has '
        'nothing but the methods the operation may use and delivers as little per read as it '
        'likes; what was called, what was read, where the object stands afterwards and the outcome '
        '(compared with that of a plain file) are judged; distinct by operation, object and '
        'settings')
ASSUMPTIONS = ['write takes everything it is given or raises, as buffered files do',
               'packing starts at the beginning of its output file']
REQUIRE = {'pack': 1800, 'unpack': 1800, 'append': 1900, 'update': 240, 'arrays': 500,
           'short_reads': 37000, 'recorder': 2700, 'calls': 2700000, 'pipe': 480, 'socket': 460,
           'raw': 1200, 'archive': 1800, 'mapped': 460, 'embedded': 700, 'followed': 900,
           'several_in_a_row': 120, 'under_way': 1700, 'ended_early': 240,
           'interrupted_streams': 250, 'more_to_come': 1800, 'accepted': 50, 'refused': 250}


def plan(tier, seed):
    q = {'quick': 4, 'thorough': 150}[tier]
    return ([('pack', n) for n in range(900 * q)] + [('unpack', n) for n in range(900 * q)] +
            [('append', n) for n in range(550 * q)] + [('update', n) for n in range(120 * q)] +
            [('array', n) for n in range(250 * q)] + [('short', n) for n in range(250 * q)] +
            [('row', n) for n in range(60 * q)])


# ---------------------------------------------------------------- recorders

class Recorder(object):
    """A file of which only `methods` exist. Reads deliver any part of what was asked for
    (short) until there is nothing left."""

    def __init__(self, ctx, methods, data=b'', short=False, pos=0, none_at=None):
        self.__dict__.update(ctx_=ctx, methods_=methods, buf_=io.BytesIO(), short_=short,
                             log_=[], wanted_=set(), reads_=0, none_at_=none_at)
        self.buf_.write(data)
        self.buf_.seek(pos)

    def __getattr__(self, k):
        if k in self.methods_:
            return getattr(self, '_' + k)
        self.wanted_.add(k)
        raise AttributeError(k)

    def _read(self, *a):
        self.ctx_.event('calls')
        if len(a) != 1 or type(a[0]) is not int or a[0] < 0:
            self.log_.append('read%r' % (a,))
            return self.buf_.read(*a)
        n = a[0]
        self.reads_ += 1
        if self.none_at_ == self.reads_:
            return None         # nothing there yet, as of a file that does not block
        if self.short_ and n > 1:
            k = self.ctx_.rng.choice([1, n, n // 2, n - 1, self.ctx_.rng.randrange(1, n + 1)])
            k = max(k, n // 50)
            if k < n:
                self.ctx_.event('short_reads')
            n = k
        return self.buf_.read(n)

    def _write(self, b):
        self.ctx_.event('calls')
        return self.buf_.write(b)

    def _seek(self, *a):
        self.ctx_.event('calls')
        return self.buf_.seek(*a)

    def _tell(self):
        self.ctx_.event('calls')
        return self.buf_.tell()




# ------------------------------------------------------------- file objects

def feed(write, data, done, rng):
    """Writes in pieces from another thread."""
    pieces = []
    p = 0
    while p < len(data):
        n = rng.choice([1, 10, 500, 4096, 70000])
        pieces.append(data[p:p + n])
        p += n
        if len(pieces) > 300:
            pieces.append(data[p:])
            break

    def run():
        try:
            for x in pieces:
                write(x)
        except (OSError, ValueError):
            pass
        finally:
            done()
    t = threading.Thread(target=run)
    t.daemon = True
    t.start()
    return t


class Given(object):
    """A readable or writable file object and what to do when done with it."""

    def __init__(self, kind, fp, close=None, content=None, short=False):
        self.kind, self.fp, self._close, self.content = kind, fp, close, content
        self.short = short

    def close(self):
        if self._close:
            self._close()
        if not isinstance(self.fp, Recorder):
            self.fp.close()

    def usable(self, ctx, what):
        """Still open, and nothing but its methods used."""
        if isinstance(self.fp, Recorder):
            ctx.check(not self.fp.log_, '%s called %s' % (what, self.fp.log_))
        else:
            ctx.check(not self.fp.closed, '%s closed the file object it was given' % what)


def stream_in(ctx, data, kinds=None):
    """Something that can be read once."""
    rng = ctx.rng
    k = rng.choice(kinds or ['recorder', 'recorder', 'recorder', 'pipe', 'socket', 'raw', 'buffered',
                             'bytesio', 'spooled', 'gzip', 'bz2', 'zip', 'mmap', 'rawbytes'])
    if k == 'recorder':
        ctx.event('recorder')
        short = rng.random() < 0.75
        return Given(k, Recorder(ctx, ('read',), data, short), short=short)
    if k == 'pipe':
        ctx.event('pipe')
        r, w = os.pipe()
        unbuffered = rng.random() < 0.7
        t = feed(lambda b: os.write(w, b), data, lambda: os.close(w), rng)
        fp = os.fdopen(r, 'rb', *([0] if unbuffered else []))
        return Given('pipe, %sbuffered' % ('un' if unbuffered else ''), fp,
                     lambda: (fp.close(), t.join()), short=True)
    if k == 'socket':
        ctx.event('socket')
        a, b = socket.socketpair()
        unbuffered = rng.random() < 0.7
        t = feed(a.sendall, data, a.close, rng)
        fp = b.makefile('rb', **({'buffering': 0} if unbuffered else {}))
        b.close()
        return Given('socket, %sbuffered' % ('un' if unbuffered else ''), fp,
                     lambda: (fp.close(), t.join()), short=True)
    return seekable_in(ctx, data, k)


def seekable_in(ctx, data, k=None):
    rng = ctx.rng
    k = k or rng.choice(['recorder', 'recorder', 'raw', 'buffered', 'bytesio', 'spooled', 'gzip', 'bz2',
                         'zip', 'mmap', 'rawbytes', 'random'])
    p = ctx.path('s%d' % ctx.counters['calls'])
    if k == 'recorder':
        ctx.event('recorder')
        return Given(k, Recorder(ctx, ('read', 'seek', 'tell'), data))
    if k == 'raw':
        ctx.event('raw')
        return Given(k, open(ops.write(p, data), 'rb', buffering=0))
    if k == 'buffered':
        return Given(k, open(ops.write(p, data), 'rb', buffering=rng.choice([2, 16, 8192])))
    if k == 'random':
        return Given(k, open(ops.write(p, data), 'r+b'))
    if k == 'spooled':
        fp = tempfile.SpooledTemporaryFile(max_size=rng.choice([0, 10, 10 ** 7]), dir=ctx.dir)
        fp.write(data)
        fp.seek(0)
        return Given(k, fp)
    if k == 'gzip':
        ctx.event('archive')
        with gzip.open(p, 'wb', 1) as fp:
            fp.write(data)
        return Given(k, gzip.open(p, 'rb'))
    if k == 'bz2':
        ctx.event('archive')
        with bz2.open(p, 'wb', 1) as fp:
            fp.write(data)
        return Given(k, bz2.open(p, 'rb'))
    if k == 'zip':
        ctx.event('archive')
        with zipfile.ZipFile(p, 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            z.writestr('m', data)
        z = zipfile.ZipFile(p)
        return Given(k, z.open('m'), z.close, short=True)
    if k == 'mmap' and data:
        ctx.event('mapped')
        with open(ops.write(p, data), 'rb') as fp:
            return Given(k, mmap.mmap(fp.fileno(), 0, access=mmap.ACCESS_READ))
    if k == 'rawbytes':
        # the buffering of the standard library around a recorder of raw reads
        return Given(k, io.BufferedReader(Raw(ctx, data), buffer_size=rng.choice([1, 50, 8192])))
    return Given('bytesio', io.BytesIO(data))


class Raw(io.RawIOBase):
    def __init__(self, ctx, data):
        self.ctx, self.b = ctx, io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, buf):
        self.ctx.event('calls')
        n = self.ctx.rng.choice([1, len(buf), max(1, len(buf) // 3)])
        return self.b.readinto(memoryview(buf)[:max(n, len(buf) // 50)])

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


def consume(ctx, i, lead):
    """Someone else read the beginning."""
    if lead:
        ctx.event('under_way')
    n = 0
    while n < len(lead):
        n += len(i.fp.read(len(lead) - n))


def stream_out(ctx):
    """Something that can be written once."""
    rng = ctx.rng
    k = rng.choice(['recorder', 'recorder', 'pipe', 'socket', 'raw', 'buffered', 'bytesio', 'gzip',
                    'zip', 'spooled'])
    p = ctx.path('o%d' % ctx.counters['calls'])
    if k == 'recorder':
        ctx.event('recorder')
        r = Recorder(ctx, ('write',))
        return Given(k, r, None, r.buf_.getvalue)
    if k in ('pipe', 'socket'):
        ctx.event(k)
        got = []
        if k == 'pipe':
            r, w = os.pipe()
            fp = os.fdopen(w, 'wb')
            read, end = (lambda: os.read(r, 65536)), (lambda: os.close(r))
        else:
            a, b = socket.socketpair()
            fp = b.makefile('wb')
            b.close()
            read, end = (lambda: a.recv(65536)), a.close

        def run():
            while True:
                x = read()
                if not x:
                    break
                got.append(x)
            end()
        t = threading.Thread(target=run)
        t.daemon = True
        t.start()
        return Given(k, fp, lambda: (fp.close(), t.join()), lambda: b''.join(got))
    if k == 'gzip':
        ctx.event('archive')
        return Given(k, gzip.open(p, 'wb', 1), None, lambda: gzip.open(p).read())
    if k == 'zip':
        ctx.event('archive')
        z = zipfile.ZipFile(p, 'w')
        fp = z.open('m', 'w')
        return Given(k, fp, lambda: (fp.close(), z.close()), lambda: zipfile.ZipFile(p).read('m'))
    if k == 'bytesio':
        fp = io.BytesIO()
        got = []
        return Given(k, fp, lambda: got.append(fp.getvalue()), lambda: got[0])
    if k == 'spooled':
        fp = tempfile.SpooledTemporaryFile(max_size=100, dir=ctx.dir)
        got = []
        return Given(k, fp, lambda: (fp.seek(0), got.append(fp.read())), lambda: got[0])
    if k == 'raw':
        ctx.event('raw')
    return Given(k, open(p, 'wb', *([0] if k == 'raw' else [])), None, lambda: ops.read(p))


def target(ctx, data=b''):
    """A file that can be read, written and positioned."""
    rng = ctx.rng
    k = rng.choice(['recorder', 'recorder', 'raw', 'buffered', 'bytesio', 'spooled', 'temporary'])
    p = ctx.path('t%d' % ctx.counters['calls'])
    if k == 'recorder':
        ctx.event('recorder')
        r = Recorder(ctx, ('read', 'write', 'seek', 'tell'), data)
        return Given(k, r, None, r.buf_.getvalue)
    if k in ('raw', 'buffered'):
        ctx.event('raw', k == 'raw')
        ops.write(p, data)
        fp = open(p, 'r+b', *([0] if k == 'raw' else [rng.choice([2, 100, 8192])]))
        return Given(k, fp, None, lambda: ops.read(p))
    got = []
    fp = io.BytesIO() if k == 'bytesio' else tempfile.TemporaryFile(dir=ctx.dir) \
        if k == 'temporary' else tempfile.SpooledTemporaryFile(max_size=50, dir=ctx.dir)
    fp.write(data)
    fp.seek(0)
    return Given(k, fp, lambda: (fp.seek(0), got.append(fp.read())), lambda: got[0])


# ------------------------------------------------------------------- cases

def case(ctx, kind, arg):
    ctx.note = {}
    globals()['case_' + kind](ctx)
    ctx.event('evaluations')
    ctx.sample(ctx.note)


def given_data(ctx):
    size, chunk = gen.size_and_chunk(ctx.rng, 20000)
    if ctx.rng.random() < 0.1:
        size, chunk = ctx.rng.randrange(60000, 300000), ctx.rng.choice([50000, 100000, 65536])
    return gen.data(ctx.rng, size), chunk


def case_pack(ctx):
    rng = ctx.rng
    data, chunk = given_data(ctx)
    s = ops.random_spec(rng, chunk)
    tail = rng.randbytes(rng.choice([0, 0, 1, 70]))
    lead = rng.randbytes(rng.choice([0, 0, 0, 1, 33, 4000]))
    i = stream_in(ctx, lead + data + tail)
    consume(ctx, i, lead)
    o = target(ctx)
    what = 'packing from %s to %s' % (i.kind, o.kind)
    ctx.note.update(what=what, size=len(data), spec=s, tail=len(tail))
    n, c, last = ops.nchunks_of(len(data), s)
    try:
        ctx.must(what, lambda: pack(PlainFPSource(i.fp), CompressedFPSink(o.fp), n, c, last,
                                    **ops.kw_pack(s)))
        i.usable(ctx, what)
        o.usable(ctx, what)
        if tail:
            # what was not announced is still there
            ctx.event('more_to_come')
            left = b''.join(iter(lambda: i.fp.read(1000), b''))
            ctx.check(left == tail, '%s read %d bytes too many' % (what, len(tail) - len(left)))
    finally:
        i.close()
        o.close()
    img = o.content()
    ctx.event('pack')
    ctx.check(img == ops.mk(data, s), '%s gives another file than packing from memory' % what,
              got=len(img))
    ctx.nontrivial(what, s, len(data))


def case_unpack(ctx):
    rng = ctx.rng
    data, chunk = given_data(ctx)
    s = ops.random_spec(rng, chunk)
    img = ops.mk(data, s)
    lead, tail = b'', b''
    if rng.random() < 0.4:
        lead = rng.randbytes(rng.choice([1, 5, 32, 100, 5000]))
        ctx.event('embedded')
    if rng.random() < 0.5:
        tail = rng.choice([b'\0', img[:40], img, rng.randbytes(50), b'\0' * 5000])
        ctx.event('followed')
    i = seekable_in(ctx, lead + img + tail)
    i.fp.seek(len(lead))
    o = stream_out(ctx)
    memory = rng.random() < 0.15
    what = 'unpacking from %s to %s' % (i.kind, 'memory' if memory else o.kind)
    ctx.note.update(what=what, size=len(data), spec=s, lead=len(lead), tail=len(tail))
    try:
        src = ctx.must('opening ' + what, CompressedFPSource, i.fp)
        told = rng.random() < 0.5
        sink = PlainMemorySink(*[src.nchunks] * told) if memory else \
            PlainFPSink(o.fp, *[src.nchunks] * told)
        ctx.must(what, unpack, src, sink)
        i.usable(ctx, what)
        o.usable(ctx, what)
        pos = i.fp.tell()
        ctx.check(pos == len(lead) + len(img), '%s stopped %d bytes from the end of the packed '
                  'file' % (what, pos - len(lead) - len(img)))
        rest = b''.join(iter(lambda: i.fp.read(3000), b''))
        ctx.check(rest == tail, what + ' changed what follows')
        ctx.check(gen.same_json(src.metadata, s['meta']), what + ' returned other metadata')
    finally:
        i.close()
        o.close()
    got = b''.join(sink.chunks) if memory else o.content()
    ctx.event('unpack')
    ctx.check(got == data, what + ' gives other data', got=len(got), want=len(data))
    ctx.nontrivial(what, s, len(data), len(lead), len(tail))


def case_row(ctx):
    """Several packed files one after the other in one stream."""
    rng = ctx.rng
    all_ = []
    for _ in range(rng.randrange(2, 6)):
        data, chunk = given_data(ctx)
        s = ops.random_spec(rng, chunk)
        all_.append((data, s, ops.mk(data, s)))
    i = seekable_in(ctx, b''.join(x[2] for x in all_))
    what = 'unpacking several in a row from ' + i.kind
    ctx.note.update(what=what)
    try:
        for data, s, img in all_:
            o = PlainMemorySink()
            if rng.random() < 0.3:
                o = PlainFPSink(io.BytesIO())
            src = ctx.must(what, CompressedFPSource, i.fp)
            ctx.must(what, unpack, src, o)
            got = o.output_fp.getvalue() if isinstance(o, PlainFPSink) else b''.join(o.chunks)
            ctx.check(got == data and gen.same_json(src.metadata, s['meta']),
                      what + ' gives other data')
        i.usable(ctx, what)
    finally:
        i.close()
    ctx.event('several_in_a_row')
    ctx.nontrivial(what, [x[1] for x in all_])


def case_append(ctx):
    rng = ctx.rng
    img = hist.start(ctx)[0] if rng.random() < 0.7 else hist.foreign_start(ctx)[0]
    m = hist.Model(img, unknown_last=True)
    t = target(ctx, img)
    what = 'appending to ' + t.kind
    # what other implementations left open is their business
    strict = m.h['last_chunk'] != -1 and m.h['chunk_size'] > 0
    try:
        for _ in range(rng.choice([1, 1, 2, 3])):
            size = hist.piece_size(rng, m)
            if not m.fits(size):
                size = 0
            piece = gen.data(rng, size)
            tail = rng.randbytes(rng.choice([0, 0, 1, 70]))
            lead = rng.randbytes(rng.choice([0, 0, 0, 1, 33]))
            i = stream_in(ctx, lead + piece + tail)
            consume(ctx, i, lead)
            w = '%s from %s' % (what, i.kind)
            spec = hist.blosc_spec(rng)
            ctx.note.setdefault('steps', []).append((w, size))
            try:
                t.fp.seek(0)
                ctx.must(w, append_fp, t.fp, i.fp, size, hist.blosc_value(rng, spec))
                i.usable(ctx, w)
                t.usable(ctx, w)
                if tail:
                    ctx.event('more_to_come')
                    left = b''.join(iter(lambda: i.fp.read(1000), b''))
                    ctx.check(left == tail, '%s read %d bytes too many' %
                              (w, len(tail) - len(left)))
            finally:
                i.close()
            m.applied(piece)
            ctx.event('append')
    finally:
        t.close()
    f = ref.parse(t.content())
    ctx.check(f.data == m.data, what + ' did not append what was given', got=len(f.data),
              want=len(m.data))
    if strict:
        m.last = f.chunks[-1]['nbytes']
        hist.verify(ctx, t.content(), m, what)
    ctx.nontrivial(what, ctx.note['steps'], len(img))


def case_update(ctx):
    rng = ctx.rng
    data, chunk = given_data(ctx)
    s = ops.random_spec(rng, chunk)
    s['meta'] = gen.metadata(rng)
    s['ma'] = dict(s['ma'] or gen.metadata_args(rng), max_meta=('add', 3000))
    img = ops.mk(data, s)
    t = target(ctx, img)
    v = {'new': rng.randrange(10 ** 6)}
    what = 'updating the metadata of ' + t.kind
    ctx.note.update(what=what)
    try:
        t.fp.seek(32)
        ctx.must(what, _rewrite_metadata_fp, t.fp, v)
        t.usable(ctx, what)
        t.fp.seek(0)
        got = ctx.must('reading the beginning of ' + t.kind, _read_beginning, t.fp)
        t.usable(ctx, 'reading the beginning')
    finally:
        t.close()
    f, g = ref.parse(t.content()), ref.parse(img)
    ctx.check(got[1] == v and f.meta['value'] == v and f.data == data and
              t.content()[f.meta['end']:] == img[g.meta['end']:], what + ' failed')
    ctx.event('update')
    ctx.nontrivial(what, s)


def case_array(ctx):
    rng = ctx.rng
    a = np.frombuffer(gen.data(rng, 8 * rng.choice([1, 10, 1000, 9000])),
                      rng.choice(['<i8', '>f8', '|u1', '<i2']))
    if rng.random() < 0.3:
        a = np.asfortranarray(a.reshape(-1, 2 if a.size % 2 == 0 else 1))
    t = target(ctx)
    s = ops.random_spec(rng, 8 * rng.choice([5, 100, 1000]), meta=False)
    k = ops.kw(s)
    k.pop('metadata', None)
    what = 'packing an array to ' + t.kind
    ctx.note.update(what=what, spec=s)
    try:
        if rng.random() < 0.1:
            ctx.must(what, pack_ndarray, a, CompressedMemorySink(), **k)
        ctx.must(what, pack_ndarray, a, CompressedFPSink(t.fp), **k)
        t.usable(ctx, what)
    finally:
        t.close()
    img = t.content()
    lead, tail = rng.randbytes(rng.choice([0, 0, 9, 100])), rng.randbytes(rng.choice([0, 0, 9]))
    i = seekable_in(ctx, lead + img + tail)
    i.fp.seek(len(lead))
    what = 'unpacking an array from ' + i.kind
    try:
        b = ctx.must(what, lambda: unpack_ndarray(CompressedFPSource(i.fp)))
        i.usable(ctx, what)
        ctx.check(i.fp.tell() == len(lead) + len(img), what + ' read further than the array')
    finally:
        i.close()
    ctx.check(b.dtype == a.dtype and b.shape == a.shape and b.tobytes() == a.tobytes(),
              what + ' gives another array')
    ctx.event('arrays')
    ctx.nontrivial(what, s, a.size)


def case_short(ctx):
    """Inputs that end early, deliver nothing for a while, or packed files read in bits: an
    exception, or the result that follows from what was there."""
    rng = ctx.rng
    data, chunk = given_data(ctx)
    k = rng.randrange(4)
    s = ops.random_spec(rng, chunk)
    if k == 0:
        announced = len(data) + rng.choice([1, 1, 10, chunk, 3 * chunk + 1, 100000])
        ctx.event('ended_early')
        i = stream_in(ctx, data)
        o = target(ctx)
        n, c, last = ops.nchunks_of(announced, s)
        what = 'packing %d bytes announced as %d from %s' % (len(data), announced, i.kind)
        ctx.note.update(what=what, spec=s)
        try:
            r = ctx.outcome(lambda: pack(PlainFPSource(i.fp), CompressedFPSink(o.fp), n, c, last,
                                         **ops.kw_pack(s)))
        finally:
            i.close()
            o.close()
        valid(ctx, r, o.content(), data, what)
    elif k == 1:
        ctx.event('ended_early')
        img, data, _ = ops_start(ctx)
        m = hist.Model(img, unknown_last=True)
        size = hist.piece_size(rng, m)
        have = rng.choice([0, size // 2, max(0, size - 1), rng.randrange(size + 1)])
        piece = gen.data(rng, have)
        t = target(ctx, img)
        i = stream_in(ctx, piece)
        what = 'appending %d bytes announced as %d from %s' % (have, size, i.kind)
        ctx.note.update(what=what)
        try:
            r = ctx.outcome(append_fp, t.fp, i.fp, size, hist.blosc_value(rng, hist.blosc_spec(rng)))
        finally:
            i.close()
            t.close()
        if r[0] != 'exc':
            valid(ctx, r, t.content(), m.data + piece, what)
    elif k == 2:
        ctx.event('interrupted_streams')
        n, c, last = ops.nchunks_of(len(data), s)
        fp = Recorder(ctx, ('read',), data, True, none_at=rng.randrange(1, 2 + n))
        o = target(ctx)
        what = 'packing from a file without data for the moment'
        ctx.note.update(what=what, spec=s, none_at=fp.none_at_)
        try:
            r = ctx.outcome(lambda: pack(PlainFPSource(fp), CompressedFPSink(o.fp), n, c, last,
                                         **ops.kw_pack(s)))
        finally:
            o.close()
        valid(ctx, r, o.content(), data, what)
    else:
        img = ops.mk(data, s)
        fp = Recorder(ctx, ('read', 'seek', 'tell'), img, True)
        ctx.event('interrupted_streams')
        what = 'unpacking from a file that delivers less than asked for'
        ctx.note.update(what=what, spec=s)
        out = io.BytesIO()
        r = ctx.outcome(lambda: unpack(CompressedFPSource(fp), PlainFPSink(out)))
        if r[0] != 'exc':
            ctx.check(out.getvalue() == data, what + ' gives other data')
    ctx.nontrivial(what, s, len(data))


def ops_start(ctx):
    while True:
        r = hist.start(ctx)
        m = hist.Model(r[0], unknown_last=True)
        if m.h['chunk_size'] > 0:
            return r


def valid(ctx, r, img, data, what):
    """Failed, or wrote a sound file with all that was there."""
    if r[0] == 'exc':
        ctx.event('refused')
        f = None
        try:
            f = ref.parse(img)
        except Exception:
            return
        ctx.check(f.h['nchunks'] != len(f.chunks) or not f.entries or -1 in
                  f.entries[:f.h['nchunks']] or f.data == data,
                  what + ' failed but left a file that looks complete')
        return
    ctx.event('accepted')
    try:
        f = ref.conform(img, appended=True)
    except ref.Bad as e:
        ctx.fail('%s succeeded and left a file that does not follow the format: %s' % (what, e))
    ctx.check(f.data == data, '%s succeeded and lost data' % what, got=len(f.data),
              want=len(data))
