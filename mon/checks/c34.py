"""C34: an operation that is interrupted anywhere ends there and leaves nothing behind."""
import ast
import gc
import io
import os
import sys

import blosc

from bloscpack.append import append, append_fp

from .. import cli, core, fpmon, gen, opkit, ops, ref, sched
from . import c11, c12, c19, c30

RULE = ('a case is one operation or command, interrupted at several places; evaluations counts '
        'interruptions; distinct by operation, arguments and place')
ASSUMPTIONS = ['interruptions happen between two statements of the package (where the interpreter '
               'runs signal handlers, among other places)',
               'what is released when the exception is dropped counts as released']
REQUIRE = {'evaluations': 7000, 'interrupted:op': 1900, 'interrupted:pack': 1000,
           'interrupted:append': 700, 'interrupted:update': 700, 'interrupted:cli': 350,
           'repeated': 1100, 'raised:KeyboardInterrupt': 1400, 'raised:Alarm': 1400,
           'raised:Stop': 700, 'raised:MemoryError': 700, 'settings_compared': 100000}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 25}[tier]
    return [(k, n) for k, m in (('op', 1400), ('pack', 500), ('append', 300), ('update', 300),
                                ('cli', 240)) for n in range(m * q)]


class Stop(BaseException):
    pass


class Alarm(Exception):
    """As a signal handler with a time limit may raise."""


_heads = {}


def heads(name):
    """The lines of the heads of 'with' and 'except' in a module of the package: an exception
    that is raised there while another one is on its way is lost track of by the interpreter
    (which runs no signal handlers there)."""
    if name not in _heads:
        r = _heads[name] = set()
        with io.open(name, encoding='utf-8') as fp:
            tree = ast.parse(fp.read())
        for x in ast.walk(tree):
            if isinstance(x, ast.With):
                r.update(range(x.lineno, x.body[0].lineno))
            elif isinstance(x, ast.ExceptHandler):
                r.update(range(x.lineno, x.body[0].lineno))
            elif isinstance(x, ast.Try) and x.finalbody:
                r.add(x.finalbody[0].lineno)
    return _heads[name]


class Raiser(object):
    """Raises at the n-th statement."""

    def __init__(self, n, exc, fired=None):
        self.left, self.exc, self.fired, self.on_fire = n, exc, False, fired

    def point(self, *where):
        self.left -= 1
        if self.left <= 0 and not self.fired:
            f = sys._getframe(1)
            while f is not None and not f.f_code.co_filename.startswith(sched._prefix):
                f = f.f_back
            if f is not None and f.f_lineno in heads(f.f_code.co_filename):
                return
            self.fired = True
            self.where = where
            if self.on_fire:
                self.on_fire()
            raise self.exc

    def __enter__(self):
        sched._cur[0] = self
        return self

    def __exit__(self, *a):
        sched._cur[0] = None


def fault(rng):
    return rng.choice([KeyboardInterrupt, KeyboardInterrupt, Stop, Alarm, Alarm, MemoryError])('now')


def fds():
    return sorted(os.listdir('/proc/self/fd'))


def comes_out(ctx, what, e, exc):
    """e came out (None: nothing) of something that was interrupted with exc."""
    ctx.check(e is not None, '%s went on as if nothing had happened' % what, raised=repr(exc))
    if not isinstance(exc, Exception):
        ctx.check(e is exc, '%s ended with another exception' % what, raised=repr(exc), got=repr(e))


def interrupted(ctx, what, fn, n, before=None):
    """Run fn, interrupted at its n-th statement; False if it ended before."""
    exc = fault(ctx.rng)
    w, f = c19.world(), fds()
    got = None
    r = Raiser(n, exc)
    try:
        with r:
            fn()
    except BaseException as e:
        if isinstance(e, (core.CaseHang, core.Skip, core.Violation)):
            raise
        got = e
    if not r.fired:
        ctx.event('ended_before')
        return False
    what = '%s, interrupted at %s:%d,' % ((what,) + r.where)
    ctx.note['interrupted'] = r.where
    comes_out(ctx, what, got, exc)
    ctx.event('raised:' + type(exc).__name__)
    # who catches it drops it in the end
    got.__traceback__ = None
    got = exc.__traceback__ = exc.__context__ = None
    f2 = fds()
    if f2 != f:
        gc.collect()
        f2 = fds()
    ctx.check(f2 == f, what + ' left a file open', before=f, after=f2)
    w2 = c19.world()
    ctx.event('settings_compared', len(w))
    ctx.check(w == w2, what + ' left a setting of the process changed',
              changed=[(k, w[k], w2[k]) for k in w if w[k] != w2[k]])
    ctx.event('evaluations')
    ctx.event('interrupted:' + ctx.note['kind'])
    return what


def case(ctx, kind, arg):
    sched.install()
    blosc.set_nthreads(1)
    ctx.note = {'kind': kind}
    globals()['case_' + kind](ctx)


def points(counter, rng, k, seldom=()):
    r = set()
    for _ in range(k):
        few = dict((w, v) for w, v in counter.where.items() if w[0] not in seldom)
        if few and rng.random() < 0.9:
            every, counter.where = counter.where, few
            r.add(counter.choose(rng))
            counter.where = every
        else:
            r.add(counter.choose(rng))
    return sorted(r)


def clear(d):
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))


def case_op(ctx):
    """Any operation, with the same arguments afterwards."""
    rng = ctx.rng
    op = opkit.make(rng)
    ctx.note.update(name=op.name, specs=repr({k: v for k, v in op.specs.items()
                                              if k not in ('img', 'data', 'array')})[:500])
    d = ctx.path('d')
    os.mkdir(d)

    def fresh():
        clear(d)
        op.prepare(d)
    fresh()
    with sched.Counter() as c:
        want = op.outcome(d)
    for n in points(c, rng, 3):
        fresh()
        a = op.args()
        before = dict((k, c19.snap(o)) for k, o in a.items())
        what = interrupted(ctx, op.name, lambda: op.fn(d, a, io.BytesIO), n)
        if not what:
            continue
        after = dict((k, c19.snap(o)) for k, o in a.items())
        ctx.check(before == after, what + ' left an argument changed',
                  changed=[(k, before[k], after[k]) for k in a if before[k] != after[k]])
        have = set(os.listdir(d))
        ctx.check(have <= set(op.files) | set(op.outs), what + ' left a file', files=sorted(have))
        for name, b in op.files.items():
            if name not in op.outs:
                ctx.check(op.read(d, name) == b, what + ' changed its input', name=name)
        ctx.nontrivial(op.name, repr(op.specs), n)
        if rng.random() < 0.6:
            fresh()
            ctx.event('repeated')
            ctx.check(op.outcome(d, a) == want, 'after %s it has another outcome' % what)
    ctx.sample(ctx.note)


def place(ctx, rng, img, fn):
    """(fn(fp) interrupted and what is left) on a disk or memory file."""
    disk = rng.random() < 0.4

    def run(x):
        if disk:
            with open(ctx.path('f'), 'r+b' if img is not None else 'wb') as fp:
                fn(fp)
        else:
            x[0] = io.BytesIO(img or b'')
            fn(x[0])

    def left(x):
        if disk:
            return ops.read(ctx.path('f')) if os.path.exists(ctx.path('f')) else None
        return x[0].getvalue() if x[0] is not None else None

    def start():
        if disk and img is not None:
            ops.write(ctx.path('f'), img)
        elif os.path.exists(ctx.path('f')):
            os.unlink(ctx.path('f'))
        return [None]
    ctx.note['disk'] = disk
    return start, run, left


def case_pack(ctx):
    rng = ctx.rng
    job = c11.Job(ctx)
    ctx.note['kind'] = 'pack'
    out = io.BytesIO()
    with sched.Counter() as c:
        ctx.must('packing', job.run, out)
    final = out.getvalue()
    f = ref.parse(final)
    start, run, left = place(ctx, rng, None, job.run)
    for n in points(c, rng, 4):
        x = start()
        what = interrupted(ctx, 'packing', lambda: run(x), n)
        img = left(x)
        if what and img is not None:
            if img == final:
                ctx.event('complete')
                continue
            c11.partial(ctx, img, f, final, ('array ' if job.array else '') + what)
            ctx.event('partial_images')
        ctx.nontrivial(final, n)
    ctx.sample(ctx.note)


def case_append(ctx):
    rng = ctx.rng
    j = c12.File(ctx)
    ctx.note['kind'] = 'append'
    a = j.args(rng)
    by_name = rng.random() < 0.3

    def run_fp(fp):
        append_fp(fp, io.BytesIO(j.piece), len(j.piece), a)
    with sched.Counter() as c:
        if ctx.outcome(run_fp, io.BytesIO(j.img))[0] != 'ok':
            return
    start, run, left = place(ctx, rng, j.img, run_fp)
    ops.write(ctx.path('new'), j.piece)
    for n in points(c, rng, 5):
        if by_name:
            o = ops.write(ctx.path('o.blp'), j.img)
            what = interrupted(ctx, 'append', lambda: append(o, ctx.path('new'), a), n)
            img = ops.read(o)
            ctx.check(ops.read(ctx.path('new')) == j.piece, 'the input changed')
        else:
            x = start()
            what = interrupted(ctx, 'append', lambda: run(x), n)
            img = left(x)
        if what and img is not None:
            c12.judge(ctx, j, img, what)
        ctx.nontrivial(j.img, j.piece, n)
    ctx.sample(ctx.note)


def case_update(ctx):
    rng = ctx.rng
    j = c30.Update(ctx)
    ctx.note['kind'] = 'update'

    def run_fp(fp):
        fp.seek(32)
        c30._rewrite_metadata_fp(fp, j.value, **j.k)
    with sched.Counter() as c:
        ctx.must('update', run_fp, io.BytesIO(j.img))
    start, run, left = place(ctx, rng, j.img, run_fp)
    for n in points(c, rng, 5):
        x = start()
        what = interrupted(ctx, 'update', lambda: run(x), n)
        img = left(x)
        if what and img is not None:
            c30.judge(ctx, j, img, what)
        ctx.nontrivial(j.img, repr(j.value), n)
    ctx.sample(ctx.note)


def case_cli(ctx):
    """blpk, in a process of its own."""
    rng = ctx.rng
    d = ctx.path('w')
    os.mkdir(d)
    data = gen.data(rng, rng.randrange(1, 3000))
    ck = rng.choice(gen.CHECKSUMS)
    img = ops.mk(data, ops.spec(1000, None, dict(checksum=ck, offsets=True, max_app=('int', 800)),
                                {'a': 1}))
    files = {'in': data, 'in.blp': img, 'new': gen.data(rng, 700), 'm.json': b'{"b": 2}'}
    cmd, outs = rng.choice([
        (['c', '-k', ck, '-z', '500B', '-m', 'm.json', 'in', 'out'], ['out']),
        (['c', '-o', 'in', 'out'], ['out']),
        (['-f', 'c', 'in'], ['in.blp']), (['d', 'in.blp', 'out'], ['out']),
        (['-f', 'd', 'in.blp'], ['in']), (['a', 'in.blp', 'new'], ['in.blp']),
        (['a', '-m', 'm.json', 'in.blp', 'new'], ['in.blp']), (['i', 'in.blp'], [])])
    flag = rng.choice([[], [], ['-v'], ['-d']])
    ctx.note.update(command=flag + cmd)
    mark, count = os.path.join(d, '.fired'), os.path.join(d, '.count')

    def prepare():
        clear(d)
        for n, b in files.items():
            ops.write(os.path.join(d, n), b)
    prepare()
    c = sched.Counter()

    def note():
        sched._cur[0] = None
        ops.write(count, repr(sorted(c.where.items())).encode())
    r = cli.forked(flag + cmd, d, before=lambda: (blosc.set_nthreads(1), c.__enter__()), after=note)
    ctx.check(r.rc == 0, 'the command failed', result=repr(r))
    c.where = dict(ast.literal_eval(ops.read(count).decode()))
    want = dict((n, ops.read(os.path.join(d, n))) for n in outs)
    for n in points(c, rng, 3, ('create_parser', '_inject_blosc_group')):
        prepare()
        exc = fault(rng)
        s = Raiser(n, exc, lambda: ops.write(mark, b'x'))
        r = cli.forked(flag + cmd, d, before=lambda: (blosc.set_nthreads(1), s.__enter__()))
        if not os.path.exists(mark):
            ctx.event('ended_before')
            continue
        os.unlink(mark)
        ctx.event('evaluations')
        ctx.event('interrupted:cli')
        what = 'blpk %s, interrupted,' % ' '.join(flag + cmd)
        ctx.check(r.rc != 0, what + ' reports success', result=repr(r))
        ctx.check('blpk: done' not in r.out.split('\n'), what + ' says that it is done',
                  result=repr(r))
        have = set(os.listdir(d))
        ctx.check(have <= set(files) | set(outs), what + ' left a file', files=sorted(have))
        for name, b in files.items():
            if name not in outs:
                ctx.check(ops.read(os.path.join(d, name)) == b, what + ' changed an input',
                          name=name)
        if 'c' in cmd[:2] and outs[0] in have:
            left = ops.read(os.path.join(d, outs[0]))
            if left != want[outs[0]] and left != files.get(outs[0]):
                c11.partial(ctx, left, ref.parse(want[outs[0]]), want[outs[0]], what)
                ctx.event('partial_images')
        elif 'a' in cmd[:1]:
            left = ops.read(os.path.join(d, 'in.blp'))
            g = ref.parse_header(left)
            f = ref.parse(img)
            last = f.chunks[-1]['pos']
            ctx.check(left[f.first:last] == img[f.first:last],
                      what + ' changed chunks before the last one', header=g)
        ctx.nontrivial(flag, cmd, n)
    ctx.sample(ctx.note)
