"""C32: whatever names refer to is taken for what it is, and nothing is lost through it."""
import json
import os
import pathlib
import stat
import subprocess
import threading

import blosc
import numpy as np

import bloscpack as bp
from bloscpack.append import append

from .. import cli, core, gen, npgen, ops, ref

RULE = ('a case is one operation or command on a file named in some way: kinds of name objects and '
        'odd names, links, files without a size, input and output the same, files that change '
        'meanwhile, outputs of all kinds; evaluations counts cases; distinct by operation, name '
        'and content')
ASSUMPTIONS = ['what a refused operation leaves of an output that was there before is not judged, '
               'unless it is the input']
REQUIRE = {'commands_by_link': 30, 'metadata:fifo': 2, 'metadata:file': 2, 'metadata:symlink': 1, 'change_noticed': 26, 'change_survived': 63, 'commands': 145, 'done': 562,
           'output:directory': 1, 'output:empty': 2, 'output:fifo': 4, 'output:full': 3,
           'output:loop': 3, 'output:missing': 1, 'output:nul': 2, 'output:null': 2,
           'output:read-only link': 3, 'output:through a file': 1, 'output:too long': 3,
           'refused': 175, 'same_refused': 135, 'special:absent': 3, 'special:dangling': 2,
           'special:directory': 1, 'special:empty fifo': 3, 'special:fifo': 6,
           'special:loop': 2, 'special:null': 3, 'special:pipe': 1, 'special:proc': 5,
           'special:sparse': 2, 'special:through a file': 1, 'special:zero': 2,
           'spelled:Path': 69, 'spelled:absolute': 56, 'spelled:bytes': 67, 'spelled:dots': 60,
           'spelled:fspath': 62, 'spelled:relative': 64, 'spelled:relative Path': 62,
           'spelled:relative bytes': 63, 'spelled:slashes': 63, 'spelled:subclass': 59,
           'through:chain': 35, 'through:directory': 41, 'through:hard': 23, 'through:plain': 40,
           'through:relative': 40, 'through:symlink': 87, 'to_pipe': 5}
OPS = ('pack_file_to_file', 'pack_bytes_to_file', 'unpack_file_from_file',
       'unpack_bytes_from_file', 'pack_ndarray_to_file', 'unpack_ndarray_from_file', 'append')
INPUT = OPS[:1] + OPS[2:4] + OPS[5:]


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 25}[tier]
    return [(k, n) for k, m in (('name', 1400), ('link', 600), ('special', 240), ('same', 300),
                                ('changing', 200), ('output', 200), ('command', 500))
            for n in range(m * q)]


class Spelled(object):
    def __init__(self, n):
        self.n = n

    def __fspath__(self):
        return self.n


class Str(str):
    pass


ODD = ['a b', 'new\nline', 'tab\t', '%s', '%d%', '{}', '{0}', '-f', '--', '~', '~root', '$HOME',
       '*', '?', '[a]', 'a;b', "it's", '"q"', '\\', 'back\\slash', '#', '\u00e4\u00f6', '\u65e5\u672c',
       '\U0001f600', '\udcff\udc80', ' ', '.', '...', '.hidden', 'x.blp.blp', 'x.blp', 'n' * 255,
       '\u00e9' * 127, 'CON', 'a:b', 'file.', '-', '\x01', '\x7f', 'http', 'data.json', '@x', '=', '|cat',
       '>x', '&', '${PATH}', '$PATH', '%PATH%', '{a,b}', '!x', '`x`', 'x,y', 'a+b', 'a%20b', 'file:x']


def odd(rng):
    n = rng.choice(ODD)
    return 'dot' if n == '.' else n


class Job(object):
    """An operation with its files: inputs (role -> bytes), roles of the outputs, fn(names)
    and the check of the result."""

    def __init__(self, ctx, name, size=None):
        rng = ctx.rng
        self.ctx, self.name = ctx, name
        self.data = gen.data(rng, rng.choice([0, 1, 50, 3000]) if size is None else size)
        if name == 'append' and not self.data:
            self.data = b'x'
        self.s = ops.random_spec(rng, rng.choice([16, 500, 4096]))
        if name == 'append':
            self.s['bpack'] = dict(offsets=True, checksum=rng.choice(gen.CHECKSUMS),
                                   max_app=('int', 5000))
        self.s.pop('meta', None)
        self.s['meta'] = m = rng.choice([None, {'a': [1, 'x']}])
        self.img = ops.mk(self.data, self.s)
        self.a = None
        if 'ndarray' in name:
            self.a = np.frombuffer(self.data, 'u1')
            self.img = bp.pack_ndarray_to_bytes(self.a)
        self.new = gen.data(rng, rng.choice([1, 20, 700])) if size is None else self.data
        self.files = {}
        if name == 'pack_file_to_file':
            self.files = {'in': self.data}
        elif name.startswith('unpack'):
            self.files = {'in': self.img}
        elif name == 'append':
            self.files = {'in': self.new, 'out': self.img}
        self.has_out = name in ('pack_file_to_file', 'pack_bytes_to_file', 'unpack_file_from_file',
                                'pack_ndarray_to_file', 'append')
        ctx.note.update(operation=name, size=len(self.data))

    def run(self, i, o):
        """The result of the operation with these names; no name for what is not there."""
        n, k = self.name, ops.kw(self.s)
        if n == 'pack_file_to_file':
            return bp.pack_file_to_file(i, o, **k)
        if n == 'pack_bytes_to_file':
            return bp.pack_bytes_to_file(self.data, o, **k)
        if n == 'unpack_file_from_file':
            return bp.unpack_file_from_file(i, o)
        if n == 'unpack_bytes_from_file':
            return bp.unpack_bytes_from_file(i)
        if n == 'pack_ndarray_to_file':
            return bp.pack_ndarray_to_file(self.a, o)
        if n == 'unpack_ndarray_from_file':
            return bp.unpack_ndarray_from_file(i)
        return append(o, i)

    def good(self, result, out):
        """What is wrong with a result and output file, or None."""
        n = self.name
        if n == 'unpack_bytes_from_file':
            return None if result == (self.data, self.s['meta']) else 'another content'
        if n == 'unpack_ndarray_from_file':
            return None if npgen.diff(self.a, result) is None else 'another array'
        if n == 'unpack_file_from_file':
            return None if out == self.data else 'another content'
        try:
            f = ref.parse(out)
        except Exception as e:
            return 'not a packed file: %s' % e
        want = self.data + (self.new if n == 'append' else b'')
        return None if f.data == want else 'another content'


def listing(d):
    """Everything below a directory: names with types, contents and targets."""
    r = {}
    for top, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(top, n)
            st = os.lstat(p)
            k = os.path.relpath(p, d)
            if stat.S_ISLNK(st.st_mode):
                r[k] = ('link', os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                r[k] = ('file', ops.read(p))
            else:
                r[k] = (stat.S_IFMT(st.st_mode),)
    return r


def spell(rng, p, base):
    """A name object that means path p."""
    rel = os.path.relpath(p, base)
    k = rng.randrange(10)
    if k == 0:
        return p, 'absolute'
    if k == 1:
        return os.fsencode(p), 'bytes'
    if k == 2:
        return pathlib.Path(p), 'Path'
    if k == 3:
        return Spelled(p), 'fspath'
    if k == 4:
        return Str(p), 'subclass'
    if k == 5:
        return pathlib.Path(rel), 'relative Path'
    if k == 6:
        return os.fsencode(rel), 'relative bytes'
    if k == 7:
        if rng.random() < 0.5:
            # which is not what removing "x/.." from the text gives
            n = os.path.join(base, 'there')
            if not os.path.lexists(n):
                os.mkdir(os.path.join(base, 'sub', 'below'))
                os.symlink('sub/below', n)
            return os.path.join('there', '..', '..', rel), 'dots'
        return os.path.join('.', 'sub', '..', '.', rel), 'dots'
    if k == 8:
        return os.path.dirname(p) + '///' + os.path.basename(p), 'slashes'
    return rel, 'relative'


class Inside(object):
    """In a working directory."""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.open('.', os.O_RDONLY)
        os.chdir(self.d)

    def __exit__(self, *a):
        os.fchdir(self.old)
        os.close(self.old)


def judged(ctx, job, d, names, o, changed, refused_ok=False):
    """Runs the job; the directory below d is to change in nothing else than changed."""
    before = listing(d)
    r = ctx.outcome(job.run, *names)
    after = listing(d)
    ctx.note['outcome'] = r[0]
    if r[0] == 'exc':
        ctx.check(refused_ok, '%s failed: %s' % (job.name, r[1:]), note=ctx.note)
        ctx.event('refused')
    else:
        w = job.good(r[1], ops.read(o) if job.has_out else None)
        ctx.check(w is None, '%s: %s' % (job.name, w), note=ctx.note)
        ctx.event('done')
    diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    ctx.check(set(diff) <= set(changed), '%s changed other files' % job.name,
              changed=diff, expected=sorted(changed), note=ctx.note)
    return r


def base(ctx):
    d = ctx.path('w')
    os.mkdir(d)
    os.mkdir(os.path.join(d, 'sub'))
    return d


def case(ctx, kind, arg):
    ctx.note = {'kind': kind}
    ctx.turn = arg if isinstance(arg, int) else 0
    globals()['case_' + kind](ctx)
    ctx.event('evaluations')
    ctx.event(kind)
    ctx.nontrivial(kind, ctx.note)
    ctx.sample(ctx.note)


def case_name(ctx):
    rng = ctx.rng
    job = Job(ctx, rng.choice(OPS))
    d = base(ctx)
    i, o = odd(rng), odd(rng)
    while i == o:
        o = odd(rng) if rng.random() < 0.9 else 'out'
    where = rng.choice(['', '', 'sub'])
    if rng.random() < 0.1:
        where = 'sub/' + '/'.join('d' * 200 for _ in range(rng.choice([1, 5, 15])))
        os.makedirs(os.path.join(d, where))
    pi, po = os.path.join(d, where, i), os.path.join(d, o)
    for role, b in job.files.items():
        ops.write(pi if role == 'in' else po, b)
    if job.has_out and job.name != 'append' and rng.random() < 0.3:
        ops.write(po, rng.randbytes(rng.choice([0, 10, 9000])))
    with Inside(d):
        (ni, ki), (no, ko) = spell(rng, pi, d), spell(rng, po, d)
        ctx.note.update(names=[core.short(i), core.short(o)], spelled=[ki, ko])
        judged(ctx, job, d, (ni, no), po, [os.path.relpath(po, d)] if job.has_out else [])
    ctx.event('spelled:' + ki)
    ctx.event('spelled:' + ko)


def case_link(ctx):
    rng = ctx.rng
    job = Job(ctx, rng.choice(OPS))
    d = base(ctx)
    names, touched, kinds, real = {}, [], {}, {}
    for role in ('in', 'out'):
        p = os.path.join(d, 'sub', role)
        if role in job.files:
            ops.write(p, job.files[role])
        elif role == 'out' and rng.random() < 0.5:
            ops.write(p, rng.randbytes(rng.choice([0, 9000])))
        real[role] = p
        k = rng.choice(['symlink', 'symlink', 'relative', 'chain', 'directory', 'hard', 'plain'])
        n = os.path.join(d, 'l' + role)
        if k == 'hard' and not os.path.exists(p):
            k = 'symlink'
        if k == 'symlink':
            os.symlink(p, n)
        elif k == 'relative':
            os.symlink('sub/' + role, n)
        elif k == 'chain':
            os.symlink(p, n + '3')
            os.symlink(n + '3', n + '2')
            os.symlink('l' + role + '2', n)
        elif k == 'directory':
            os.symlink('sub', n + 'dir')
            n = os.path.join(n + 'dir', role)
        elif k == 'hard':
            os.link(p, n)
            if role == 'out' and job.has_out:
                touched.append('l' + role)
        else:
            n = p
        names[role], kinds[role] = n, k
        ctx.event('through:' + k)
    ctx.note['links'] = kinds
    if job.has_out:
        touched.append('sub/out')
    judged(ctx, job, d, (names['in'], names['out']), real['out'], touched)
    if kinds['out'] == 'hard' and job.has_out:
        ctx.check(os.path.samefile(names['out'], real['out']), 'a hard link was cut',
                  note=ctx.note)


def feed(path, data):
    """Writes to a named pipe when somebody reads it."""
    def run():
        try:
            with open(path, 'wb', buffering=0) as fp:
                fp.write(data)
        except OSError:
            pass
    t = threading.Thread(target=run)
    t.daemon = True
    t.start()
    return t


def unfeed(path, t):
    """Lets the feeder come to its end."""
    while t.is_alive():
        fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        t.join(0.02)
        os.close(fd)


class Watched(object):
    """Ends the wait for the other end of a named pipe, after a long time."""

    def __init__(self, path):
        self.path = path
        self.expired = False
        self.timer = threading.Timer(60, self.expire)
        self.timer.daemon = True

    def expire(self):
        self.expired = True
        while not self.done:
            fd = os.open(self.path, os.O_RDWR | os.O_NONBLOCK)
            self.timer.finished.wait(0.05)
            os.close(fd)

    def __enter__(self):
        self.done = False
        self.timer.start()
        return self

    def __exit__(self, *a):
        self.done = True
        self.timer.cancel()


def case_special(ctx):
    """Inputs that are not regular files with a size."""
    rng = ctx.rng
    job = Job(ctx, rng.choice(INPUT + ('pack_file_to_file', 'append')))
    d = base(ctx)
    o = os.path.join(d, 'out')
    n = os.path.join(d, 'in')
    t = None
    k = rng.choice(['fifo', 'fifo', 'proc', 'proc', 'null', 'zero', 'directory', 'dangling', 'loop',
                    'absent', 'sparse', 'through a file', 'empty fifo', 'pipe'])
    ctx.note['special'] = k
    must = True         # refuse
    raw = job.files['in']
    if 'out' in job.files:
        ops.write(o, job.files['out'])
    fds = []
    if k in ('fifo', 'empty fifo'):
        os.mkfifo(n)
        t = feed(n, raw if k == 'fifo' else b'')
        # what no bytes unpack to is nothing
        must = job.name.startswith('unpack') or (k == 'fifo' and raw)
    elif k == 'pipe':
        r, w = os.pipe()
        os.write(w, raw[:60000])
        os.close(w)
        fds.append(r)
        n = '/proc/self/fd/%d' % r
        must = job.name.startswith('unpack') or raw
    elif k == 'proc':
        n = rng.choice(['/proc/version', '/proc/self/cmdline', '/proc/self/maps',
                        '/proc/filesystems'])
    elif k == 'null':
        n, must = '/dev/null', job.name.startswith('unpack')
        raw = b''
    elif k == 'zero':
        n = '/dev/zero'
    elif k == 'directory':
        os.mkdir(n)
    elif k == 'dangling':
        os.symlink('nowhere', n)
    elif k == 'loop':
        os.symlink('in', n)
    elif k == 'through a file':
        ops.write(n, raw)
        n += '/more'
    elif k == 'sparse':
        with open(n, 'wb') as fp:
            fp.write(raw)
            fp.seek(rng.choice([5000, 100000]), 1)
            fp.write(b'end')
        raw = ops.read(n)
        if job.name in ('pack_file_to_file', 'append'):
            job.data, job.new = (raw, job.new) if job.name != 'append' else (job.data, raw)
            job.s['chunk'] = max(4096, len(raw) // 100)
        must = False
    if job.name == 'append' and not must and k != 'sparse':
        job.new = b''
    if job.name == 'pack_file_to_file' and not must and k != 'sparse':
        job.data = b''
    before = ops.read(o) if job.name == 'append' else None
    if t:
        with Watched(n) as w:
            r = ctx.outcome(job.run, n, o)
        ctx.check(not w.expired, '%s waits for ever' % job.name, note=ctx.note)
        unfeed(n, t)
    else:
        r = ctx.outcome(job.run, n, o)
    for fd in fds:
        os.close(fd)
    if r[0] == 'exc':
        ctx.check(must or k in ('empty fifo', 'fifo', 'pipe') or (k == 'sparse' and 'pace' in r[2]),
                  '%s of a %s file failed: %s' % (job.name, k, r[1:]), note=ctx.note)
        ctx.event('refused')
        if before is not None:
            ctx.check(ops.read(o) == before, 'a refused append changed the file', note=ctx.note)
    elif k in ('proc', 'zero'):
        # done at all only if with everything there was
        if k == 'proc' and job.name == 'pack_file_to_file':
            f = ref.parse(ops.read(o))
            ctx.check(len(f.data) > 0, 'the content of %s was lost' % n, note=ctx.note)
        elif k == 'proc' and job.name == 'append':
            ctx.check(len(ref.parse(ops.read(o)).data) > len(job.data),
                      'the content of %s was lost' % n, note=ctx.note)
        else:
            ctx.fail('%s of %s was accepted' % (job.name, n), note=ctx.note)
    else:
        if must and k in ('fifo', 'pipe') and job.name == 'pack_file_to_file':
            job.data = raw
        w = job.good(r[1], ops.read(o) if job.has_out else None)
        ctx.check(w is None, '%s of a %s file: %s' % (job.name, k, w), note=ctx.note)
        ctx.event('done')
    ctx.event('special:' + k)


def other_name(rng, d, p):
    """Another name of the same file."""
    n = os.path.join(d, 'other')
    k = rng.choice(['same', 'dots', 'symlink', 'hard', 'directory', 'bytes', 'Path', 'relative',
                    'fd'])
    if k == 'same':
        n = p
    elif k == 'dots':
        n = os.path.join(d, 'sub', '..', os.path.basename(p))
    elif k == 'symlink':
        os.symlink(p, n)
    elif k == 'hard':
        os.link(p, n)
    elif k == 'directory':
        os.symlink('.', n)
        n = os.path.join(n, os.path.basename(p))
    elif k == 'bytes':
        n = os.fsencode(p)
    elif k == 'Path':
        n = pathlib.Path(p)
    elif k == 'relative':
        n = os.path.relpath(p)
    elif k == 'fd':
        n = '/proc/self/cwd/' + os.path.relpath(p)
    return n, k


def case_same(ctx):
    """Input and output are the same file."""
    rng = ctx.rng
    name = rng.choice(['pack_file_to_file', 'unpack_file_from_file', 'append', 'append'])
    job = Job(ctx, name, size=rng.choice([0, 1, 500, 20000, 300000]))
    if len(job.data) > 5000:
        job.s['chunk'] = 10000
        if name == 'append':
            job.img = ops.mk(job.data, job.s)
    d = base(ctx)
    p = os.path.join(d, 'x.blp')
    raw = job.img if name != 'pack_file_to_file' else job.data
    ops.write(p, raw)
    with Inside(d):
        n, k = other_name(rng, d, p)
        ctx.note['other'] = k
        i, o = (p, n) if rng.random() < 0.5 else (n, p)
        command = rng.random() < 0.4
        if command:
            i, o = os.fsdecode(i), os.fsdecode(o)
            sub = {'pack_file_to_file': ['-f', 'compress', i, o],
                   'unpack_file_from_file': ['-f', 'decompress', '-e', i, o],
                   'append': ['append', '-e', o, i]}[name]
            if name == 'unpack_file_from_file':
                sub.remove('-e')
            x = cli.forked(['-n', '1'] + sub, d)
            r = ('ok' if x.rc == 0 else 'exc', repr(x))
            ctx.event('commands')
        else:
            r = ctx.outcome(job.run, i, o)
    after = ops.read(p)
    if r[0] == 'exc':
        ctx.check(after == raw, '%s of a file to itself destroyed it' % name, outcome=r[1:],
                  left=after[:200], note=ctx.note)
        ctx.event('same_refused')
    else:
        try:
            got = after if name == 'unpack_file_from_file' else ref.parse(after).data
        except Exception as e:
            ctx.fail('%s of a file to itself left a damaged one: %s' % (name, e), note=ctx.note)
        ctx.check(got == job.data + (raw if name == 'append' else b''),
                  '%s of a file to itself gave another content' % name, note=ctx.note)
        ctx.event('same_done')


def case_changing(ctx):
    """The input changes while it is being read."""
    rng = ctx.rng
    name = rng.choice(['pack_file_to_file', 'append'])
    chunk = rng.choice([1000, 20000, 200000])
    n = rng.choice([2, 3, 9])
    job = Job(ctx, name, size=chunk * n - rng.choice([0, 1, chunk // 2]))
    job.s['chunk'] = chunk
    if name == 'append':
        # reserve enough
        job.data = gen.data(rng, 10 + chunk // 2)
        job.img = ops.mk(job.data, dict(job.s, chunk=10 + chunk // 2))
    job.files = {'in': job.new} if name == 'append' else {'in': job.data}
    d = base(ctx)
    i, o = os.path.join(d, 'in'), os.path.join(d, 'out')
    ops.write(i, job.files['in'])
    if name == 'append':
        ops.write(o, job.img)
    old = job.files['in']
    when = rng.randrange(1, n + 1)
    how = rng.choice(['shorter', 'longer', 'removed', 'replaced', 'empty'])
    ctx.note.update(change=how, at=when, chunks=n)
    count = [0]
    real = blosc.compress

    def compress(*a, **k):
        count[0] += 1
        if count[0] == when:
            if how == 'shorter':
                os.truncate(i, max(0, len(old) - rng.choice([1, chunk, len(old) // 2])))
            elif how == 'longer':
                with open(i, 'ab') as fp:
                    fp.write(rng.randbytes(rng.choice([1, chunk])))
            elif how == 'removed':
                os.unlink(i)
            elif how == 'replaced':
                ops.write(i + '2', b'other')
                os.rename(i + '2', i)
            else:
                os.truncate(i, 0)
        return real(*a, **k)
    blosc.compress = compress
    try:
        r = ctx.outcome(job.run, i, o)
    finally:
        blosc.compress = real
    if r[0] == 'exc':
        ctx.check(how in ('shorter', 'empty'), '%s failed although the content was there: %s' %
                  (name, r[1:]), note=ctx.note)
        ctx.event('change_noticed')
        return
    f = ref.parse(ops.read(o))
    want = (job.data if name == 'append' else b'') + old
    # what was cut off may have been read already
    ctx.check(f.data == want, 'the content is neither complete nor the operation refused',
              got=len(f.data), want=len(want), note=ctx.note)
    ctx.event('change_survived')


def case_output(ctx):
    """Outputs that are no regular files, or cannot be made."""
    rng = ctx.rng
    job = Job(ctx, rng.choice([x for x in OPS if 'to_file' in x] +
                              ['unpack_file_from_file'] * 3), size=rng.choice([0, 1, 3000, 50000]))
    d = base(ctx)
    i, o = os.path.join(d, 'in'), os.path.join(d, 'out')
    if 'in' in job.files:
        ops.write(i, job.files['in'])
    k = rng.choice(['fifo', 'fifo', 'directory', 'missing', 'null', 'full', 'too long', 'through a file',
                    'loop', 'nul', 'empty', 'read-only link'])
    ctx.note['output'] = k
    got = []
    t = None
    if k == 'fifo':
        os.mkfifo(o)

        def reader():
            with open(o, 'rb') as fp:
                got.append(fp.read())
        t = threading.Thread(target=reader)
        t.start()
    elif k == 'directory':
        os.mkdir(o)
    elif k == 'missing':
        o = os.path.join(d, 'no', 'out')
    elif k == 'null':
        o = '/dev/null'
    elif k == 'full':
        o = '/dev/full'
    elif k == 'too long':
        o = os.path.join(d, 'n' * 256)
    elif k == 'through a file':
        ops.write(o, b'x')
        o += '/more'
    elif k == 'loop':
        os.symlink('out', o)
    elif k == 'nul':
        o += '\0more'
    elif k == 'empty':
        o = ''
    elif k == 'read-only link':
        o = '/proc/self/exe/none'
    before = listing(d)
    if t:
        with Watched(o) as w:
            r = ctx.outcome(job.run, i, o)
        ctx.check(not w.expired, '%s waits for ever' % job.name, note=ctx.note)
    else:
        with Inside(d):
            r = ctx.outcome(job.run, i, o)
    if t:
        # if it was never opened
        while t.is_alive():
            try:
                os.close(os.open(o, os.O_WRONLY | os.O_NONBLOCK))
            except OSError:
                pass
            t.join(0.01)
    ctx.note['outcome'] = r[0]
    if r[0] == 'ok':
        if k == 'fifo':
            if got[0] or job.name != 'unpack_file_from_file' or job.data:
                w = job.good(None, got[0])
                ctx.check(w is None, '%s to a pipe: %s' % (job.name, w), note=ctx.note)
            ctx.event('to_pipe')
        else:
            ctx.check(k == 'null' or (k == 'full' and job.name == 'unpack_file_from_file' and
                                      not job.data),
                      '%s to an output that is %s seems to have succeeded' % (job.name, k),
                      note=ctx.note)
        ctx.event('done')
    else:
        ctx.check(k not in ('null', 'fifo') or job.name != 'unpack_file_from_file',
                  'unpacking to an output that is %s failed: %s' % (k, r[1:]), note=ctx.note)
        ctx.event('refused')
    ctx.check(listing(d) == before, '%s to an output that is %s left something behind' %
              (job.name, k), note=ctx.note)
    ctx.event('output:' + k)


def case_command(ctx):
    """Commands with odd names, through links and pipes."""
    rng = ctx.rng
    d = base(ctx)
    # every name with every command in turn
    name = ['compress', 'decompress', 'append', 'info'][ctx.turn % 4]
    job = Job(ctx, {'compress': 'pack_file_to_file', 'decompress': 'unpack_file_from_file',
                    'append': 'append', 'info': 'unpack_bytes_from_file'}[name],
              size=rng.choice([1, 300, 5000]))
    stem = ODD[ctx.turn // 4 % len(ODD)][:200]
    stem = 'dot' if stem == '.' else stem
    if len(os.fsencode(stem)) > 240 or stem == '--':  # argparse drops '--' itself
        stem = 'x'
    i = stem
    o = stem + '.blp'
    if name in ('decompress', 'info'):
        i, o = o, i
    feeder = None
    piped = rng.random() < 0.2 and name in ('compress', 'append')
    if piped:
        i = '/dev/stdin'
        o = 'o.blp'
    else:
        ops.write(os.path.join(d, i), job.files['in'])
    if name == 'append':
        ops.write(os.path.join(d, o), job.files['out'])
    meta = None
    options = []
    if name == 'compress' and rng.random() < 0.5:
        meta = {'n': rng.randrange(1000), 's': '\u00e4' * rng.choice([1, 3000])}
        m = os.path.join(d, odd(rng))
        while os.path.lexists(m) or m.endswith('.blp'):
            m = os.path.join(d, 'meta')
        text = json.dumps(meta, ensure_ascii=rng.random() < 0.5).encode()
        k = 'fifo' if piped or rng.random() < 0.3 else rng.choice(['file', 'symlink'])
        if k == 'fifo':
            os.mkfifo(m)
            feeder = feed(m, text)
        elif k == 'file':
            ops.write(m, text)
        else:
            ops.write(os.path.join(d, 'what it is'), text)
            os.symlink(os.path.join(d, 'what it is'), m)
        options = ['--metadata=' + rng.choice([m, os.path.relpath(m, d)])]
        ctx.note['metadata'] = k
        ctx.event('metadata:' + k)
    args = {'compress': [i] + ([o] if piped else []), 'decompress': [i], 'append': [o, i],
            'info': [i]}[name]
    if not piped and ctx.turn // 4 % 3 == 1:
        # by way of a link, which is not what removing "x/.." from the text gives
        os.mkdir(os.path.join(d, 'sub', 'below'))
        os.symlink('sub/below', os.path.join(d, 'there'))
        if name in ('compress', 'decompress') and rng.random() < 0.5:
            args.append(o)
        args = [os.path.join('there', '..', '..', x) for x in args]
        ctx.event('commands_by_link')
    ctx.note.update(command=[name] + [core.short(x) for x in args], piped=piped)
    before = listing(d)
    if piped:
        env = dict(os.environ)
        p = subprocess.run([core.PY, os.path.join(core.REPO, 'blpk'), '-n', '1', name] + options + ['--'] + args,
                           cwd=d, input=job.files['in'], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env=env)
        rc = p.returncode
    else:
        rc = cli.forked(['-n', '1', name] + options + ['--'] + args, d).rc
    after = listing(d)
    if rc == 0:
        if name != 'info':
            ctx.check(os.path.isfile(os.path.join(d, o)), 'blpk %s did not write its output' % name,
                      note=ctx.note)
            w = job.good(None, ops.read(os.path.join(d, o)))
            ctx.check(w is None, 'blpk %s: %s' % (name, w), note=ctx.note)
        if meta:
            ctx.check((ref.parse(ops.read(os.path.join(d, o))).meta or {}).get('value') == meta,
                      'blpk %s: other metadata' % name, note=ctx.note)
        ctx.event('done')
    else:
        ctx.check(piped, 'blpk %s failed' % name, note=ctx.note)
        if name == 'append':
            ctx.check(before == after, 'a refused append changed something', note=ctx.note)
        ctx.event('refused')
    diff = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
    ctx.check(set(diff) <= {o} and (name != 'info' or not diff), 'blpk %s changed other files' % name,
              changed=diff, note=ctx.note)
    ctx.event('commands')
