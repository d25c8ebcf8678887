"""C24: operations release resources and touch only the files they are given."""
import ast
import errno
import gc
import io
import os
import resource
import shutil
import signal
import stat
import tempfile

import blosc

from .. import audit, cli, core, gen, opkit, ops, ref

RULE = ('a case runs one operation (with an injected fault in half of the cases), a series of '
        'repetitions of it, or a blpk command, among other files; descriptors are compared while '
        'result or exception are still held and with the garbage collector off, and every file '
        'of the directory, the working and the temporary directory by content, time stamps, '
        'inode and mode; evaluations counts operations judged; distinct by operation, settings '
        'and fault')
ASSUMPTIONS = ['temporary files are looked for where tempfile, the working directory and the '
               'directory of the output put them, and wherever else the interpreter opens '
               'files for writing']
REQUIRE = {'ops': 1200, 'failed': 500, 'succeeded': 500, 'held': 500, 'repeated': 6000,
           'cli': 80, 'fault:call': 150, 'fault:interrupt': 60, 'fault:nofile': 30,
           'fault:fsize': 30, 'fault:full': 25, 'fault:directory': 20, 'fault:missing': 60,
           'outputs': 300, 'inputs_opened': 500, 'bystanders': 4000}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 35}[tier]
    return ([('repeat', n) for n in range(100 * q)] + [('cli', n) for n in range(100 * q)] +
            [('op', n) for n in range(1900 * q)])


def setup(ctx):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    audit.install()


def cleanup(ctx):
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    for n in ('compress', 'compress_ptr', 'decompress', 'decompress_ptr'):
        if 'real_' + n in ctx.state:
            setattr(blosc, n, ctx.state['real_' + n])
    gc.enable()


def case(ctx, kind, arg):
    globals()['case_' + kind](ctx)
    ctx.sample(ctx.note)


# -------------------------------------------------------------------- monitors

def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass        # the one of listdir
    return out


def snapshot(*roots):
    out = {}
    for root in roots:
        for base, dirs, files in os.walk(root):
            for n in dirs + files:
                p = os.path.join(base, n)
                st = os.lstat(p)
                key = (stat.S_IFMT(st.st_mode), st.st_mode, st.st_ino, st.st_nlink, st.st_uid)
                if stat.S_ISREG(st.st_mode):
                    key += (st.st_mtime_ns, ops.read(p))
                elif stat.S_ISLNK(st.st_mode):
                    key += (os.readlink(p),)
                out[p] = key
    return out


def differences(a, b, allowed):
    out = []
    for p in sorted(set(a) | set(b)):
        if p in allowed or a.get(p) == b.get(p):
            continue
        out.append(('created' if p not in a else 'deleted' if p not in b else 'changed', p))
    return out


def written(log, roots, cwd):
    """Files opened for writing, or otherwise touched, outside the watched directories."""
    out = []
    for e in log:
        if e[0] == 'open':
            if isinstance(e[1], int) or e[1] is None:
                continue
            mode, flags = e[2], e[3]
            w = set(mode) & set('wax+') if isinstance(mode, str) else \
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if w:
                p = os.path.realpath(os.path.join(cwd, os.fsdecode(e[1])))
                if not any(p.startswith(r + os.sep) for r in roots) and p != '/dev/full':
                    out.append(e[:3])
        elif e[0] in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate',
                      'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.utime'):
            p = os.path.realpath(os.path.join(cwd, e[1].strip("'")))
            if not any(p.startswith(r + os.sep) for r in roots):
                out.append(e)
    return out


def inputs_written(log, inputs, cwd):
    """Inputs opened in a way that needs the permission to write."""
    ins = set(os.path.realpath(p) for p in inputs)
    out = []
    for e in log:
        if e[0] == 'open' and e[1] is not None and not isinstance(e[1], int) and \
                os.path.realpath(os.path.join(cwd, os.fsdecode(e[1]))) in ins:
            w = set(e[2]) & set('wax+') if isinstance(e[2], str) else \
                isinstance(e[3], int) and e[3] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            out.append((bool(w), e[:3]))
    return out


class Interrupt(BaseException):
    pass


class Boom(Exception):
    pass


def arm(ctx, exc):
    """Makes the n-th call into Blosc raise."""
    left = [ctx.rng.choice([0, 0, 1, 2, 3])]
    for n in ('compress', 'compress_ptr', 'decompress', 'decompress_ptr'):
        real = ctx.state.setdefault('real_' + n, getattr(blosc, n))

        def f(*a, _real=real, **k):
            if left[0] == 0:
                ctx.event('fault_hit')
                raise exc
            left[0] -= 1
            return _real(*a, **k)
        setattr(blosc, n, f)


NAMES = ['out', 'out.blp', 'in', 'in.blp', 'o.blp', 'new', 'a.blp', 'other', '.hidden',
         'out.blp.tmp', 'out~', 'in.blp.bak', 'tmp', 'o.blp.lock', '#out#', 'o', 'a']


def populate(ctx, d, op):
    rng = ctx.rng
    others = []
    for n in rng.sample(NAMES, 5):
        if n in op.files or n in op.outs:
            continue
        ops.write(os.path.join(d, n), rng.randbytes(rng.randrange(40)))
        others.append(n)
    os.mkdir(os.path.join(d, 'sub'))
    ops.write(os.path.join(d, 'sub', 'out.blp'), b'keep')
    ctx.event('bystanders', len(others) + 1)
    for n in op.outs:
        if n not in op.files and rng.random() < 0.3:
            ops.write(os.path.join(d, n), rng.randbytes(rng.choice([0, 10, 9000])))
    for base, _, files in os.walk(d):
        for n in files:
            # a time stamp that survives no rounding
            os.utime(os.path.join(base, n), ns=(10 ** 18 + 1, 10 ** 18 + 123456789))


def fault(ctx, d, op):
    rng = ctx.rng
    k = rng.choice(['call', 'call', 'interrupt', 'nofile', 'fsize', 'full', 'directory',
                    'missing', 'missing'])
    outs = [n for n in op.outs if n not in op.files]
    if k in ('full', 'directory') and not outs or k == 'missing' and not op.files or \
            k == 'fsize' and not op.outs:
        k = 'call'
    if k == 'nofile' and not (op.files or op.outs):
        k = 'interrupt'
    if k == 'call':
        arm(ctx, rng.choice([Boom('x'), blosc.error('x') if hasattr(blosc, 'error') else
                             Boom('y'), OSError(errno.EIO, 'x'), MemoryError('x'),
                             ValueError('x')]))
    elif k == 'interrupt':
        arm(ctx, rng.choice([Interrupt(), SystemExit(3)]))
    elif k == 'nofile':
        pass        # just before the operation
    elif k == 'fsize':
        pass
    elif k == 'full':
        p = os.path.join(d, outs[0])
        if os.path.lexists(p):
            os.unlink(p)
        os.symlink('/dev/full', p)
    elif k == 'directory':
        p = os.path.join(d, outs[0])
        if os.path.lexists(p):
            os.unlink(p)
        os.mkdir(p)
    elif k == 'missing':
        os.unlink(os.path.join(d, rng.choice(sorted(op.files))))
    ctx.event('fault:' + k)
    return k


def limits(ctx, k, before):
    if k == 'nofile':
        top = max(before) + 1
        free = [n for n in range(top) if n not in before]
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        # all the gaps and this many more can be opened
        resource.setrlimit(resource.RLIMIT_NOFILE,
                           (max(3, top + ctx.rng.choice([0, 1, 2]) - len(free)), hard))
    elif k == 'fsize':
        n = ctx.rng.choice([0, 20, 32, 40, 100, 500, 2000])
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))


def unlimited():
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def attempt(op, d, args, box):
    """The result or the exception, both alive when this returns."""
    try:
        return op.fn(d, args, io.BytesIO), None
    except (core.CaseHang, KeyboardInterrupt):
        raise
    except BaseException as e:
        return None, e


def case_op(ctx):
    rng = ctx.rng
    op = opkit.make(rng)
    if rng.random() < 0.7:
        # mostly those that open files
        while not (op.files or op.outs):
            op = opkit.make(rng)
    d, tmp, cwd = ctx.path('d'), ctx.path('tmp'), ctx.path('cwd')
    for p in (d, tmp, cwd):
        os.mkdir(p)
    op.prepare(d)
    populate(ctx, d, op)
    args = op.args()
    k = fault(ctx, d, op) if rng.random() < 0.5 else None
    ctx.note.update(op=op.name, fault=k, specs=op.specs)
    old_tmp, old_cwd = tempfile.tempdir, os.getcwd()
    # as in a new process: looking for the directory would write there
    old_env, tempfile.tempdir = os.environ.get('TMPDIR'), None
    os.environ['TMPDIR'] = tmp
    os.chdir(cwd)
    try:
        before_files = snapshot(d, tmp, cwd)
        gc.collect()
        gc.disable()
        before = fds()
        with audit.Watch() as w:
            limits(ctx, k, before)
            try:
                result, exc = attempt(op, d, args, None)
            finally:
                unlimited()
        after = fds()
    finally:
        tempfile.tempdir = old_tmp
        os.environ.pop('TMPDIR', None) if old_env is None else os.environ.update(TMPDIR=old_env)
        os.chdir(old_cwd)
        gc.enable()
    cleanup(ctx)
    what = '%s%s, which %s,' % (op.name, ' (fault: %s)' % k if k else '',
                                'failed' if exc else 'succeeded')
    ctx.note['exception'] = repr(exc)
    new = dict((n, t) for n, t in after.items() if before.get(n) != t)
    gone = dict((n, t) for n, t in before.items() if n not in after)
    ctx.check(not new, '%s left descriptors open' % what, descriptors=new)
    ctx.check(not gone, '%s closed descriptors of others' % what, descriptors=gone)
    allowed = set(os.path.join(d, n) for n in op.outs)
    diff = differences(before_files, snapshot(d, tmp, cwd), allowed)
    ctx.check(not diff, '%s touched other files: %s' %
              (what, ', '.join('%s %s' % (x, os.path.relpath(p, ctx.dir)) for x, p in diff)))
    roots = [os.path.realpath(p) for p in (d, tmp, cwd)]
    bad = written(w.log, roots, cwd)
    ctx.check(not bad, '%s wrote elsewhere' % what, events=bad[:5])
    seen = inputs_written(w.log, [os.path.join(d, n) for n in op.files if n not in op.outs], cwd)
    ctx.event('inputs_opened', len(seen))
    ctx.check(not any(x for x, _ in seen), '%s opened its input for writing' % what, events=seen)
    ctx.event('ops')
    ctx.event('evaluations')
    ctx.event('failed' if exc else 'succeeded')
    ctx.event('held', exc is not None)
    ctx.event('outputs', sum(os.path.lexists(os.path.join(d, n)) for n in op.outs))
    ctx.nontrivial(op.name, op.specs, k, exc is not None)
    del result, exc


def case_repeat(ctx):
    """Many times in one process, holding on to every exception."""
    rng = ctx.rng
    op = opkit.make(rng)
    d = ctx.path('d')
    os.mkdir(d)
    op.prepare(d)
    if op.files and rng.random() < 0.4:
        n = rng.choice(sorted(op.files))
        ops.write(os.path.join(d, n), opkit.damage(rng, op.files[n])
                  if len(op.files[n]) > 40 else b'')
    ctx.note.update(op=op.name, specs=op.specs)
    saved = dict((n, ops.read(os.path.join(d, n))) for n in os.listdir(d))
    kept = []
    gc.disable()
    before = fds()
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (max(before) + 30, hard))
    times = 80
    for i in range(times):
        for n in op.outs:
            # appending for ever would fill the file
            if n in saved:
                ops.write(os.path.join(d, n), saved[n])
        kept.append(attempt(op, d, op.args(), None))
        now = len(fds())
        ctx.event('repeated')
        if now > len(before):
            ctx.fail('%s left descriptors open after %d repetitions' % (op.name, i + 1),
                     before=before, after=fds(), exception=repr(kept[-1][1]))
    unlimited()
    outcomes = set((type(e).__name__, opkit.clean(str(e), d)) for r, e in kept)
    ctx.check(len(outcomes) == 1, '%s ended differently when repeated' % op.name,
              outcomes=outcomes)
    for n, b in saved.items():
        if n not in op.outs:
            ctx.check(ops.read(os.path.join(d, n)) == b, '%s changed its input' % op.name)
    ctx.check(set(os.listdir(d)) <= set(saved) | set(op.outs), '%s made other files: %s' %
              (op.name, sorted(os.listdir(d))))
    ctx.event('evaluations')
    ctx.nontrivial('repeat', op.name, op.specs)


def case_cli(ctx):
    rng = ctx.rng
    d, tmp = ctx.path('d'), ctx.path('tmp')
    os.mkdir(d)
    os.mkdir(tmp)
    chunk = rng.choice([20, 100, 1000])
    img, data = opkit.image(rng, chunk=chunk, offsets=True, app=rng.choice([0, 3, 10]))
    if rng.random() < 0.25:
        img = opkit.damage(rng, img)
    ops.write(os.path.join(d, 'x.blp'), img)
    ops.write(os.path.join(d, 'x2'), gen.data(rng, rng.choice([0, 10, chunk * 2, chunk * 3 + 1])))
    ops.write(os.path.join(d, 'meta'), rng.choice([b'{"a": 1}', b'{"a"', b'null', b'[]']))

    class No(object):
        files, outs = {'x.blp', 'x2', 'meta'}, []
    populate(ctx, d, No)
    out = rng.choice([[], ['fresh']])
    c = rng.choice('ccdda')
    g = ['-n', str(rng.choice([1, 1, 2]))] + rng.choice([[], ['-f'], ['-v'], ['-d']])
    meta = rng.choice([[], ['-m', 'meta']])
    if c == 'c':
        args = g + ['c', '-z', str(chunk)] + meta + ['x2'] + out
        target = out[0] if out else 'x2.blp'
    elif c == 'd':
        args = g + ['d', 'x.blp'] + out
        target = out[0] if out else 'x'
    else:
        args = g + ['a'] + meta + ['x.blp', 'x2']
        target = 'x.blp'
    if rng.random() < 0.15:
        args = g + ['i', rng.choice(['x.blp', 'x2'])]
        target = None
    ctx.note['command'] = args
    before = snapshot(d, tmp)
    lim = rng.random() < 0.2

    def pre():
        if lim:
            resource.setrlimit(resource.RLIMIT_FSIZE, (rng.choice([0, 40, 200]),) * 2)
        tempfile.tempdir = tmp
        audit._on[0] = log = []
        leave = os._exit

        def done(rc):
            audit._on[0] = None
            seen = inputs_written(log, [os.path.join(d, n) for n in ('x.blp', 'x2', 'meta')
                                        if n != target], d)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            if hard == resource.RLIM_INFINITY:
                ops.write(ctx.path('seen'), repr(seen).encode())
            leave(rc)
        os._exit = done
    r = cli.forked(args, d, before=pre)
    what = 'blpk %s, exit status %d,' % (' '.join(args), r.rc)
    ctx.check(r.rc >= 0, what + ' was killed')
    allowed = {os.path.join(d, target)} if target else set()
    diff = differences(before, snapshot(d, tmp), allowed)
    ctx.check(not diff, '%s touched other files: %s' %
              (what, ', '.join('%s %s' % (x, os.path.relpath(p, ctx.dir)) for x, p in diff)),
              result=repr(r))
    if not lim:
        seen = ast.literal_eval(ops.read(ctx.path('seen')).decode())
        ctx.event('inputs_opened', len(seen))
        ctx.check(not any(x for x, _ in seen), '%s opened its input for writing' % what,
                  events=seen)
    ctx.event('cli')
    ctx.event('evaluations')
    ctx.nontrivial('cli', args, lim, r.rc)
