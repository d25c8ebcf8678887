"""C19: operations depend only on their inputs, not on earlier calls."""
import builtins
import decimal
import gc
import locale
import os
import pickle
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import warnings

import blosc
import numpy as np

from .. import core, npgen, opkit

RULE = ('a case is a sequence of operations sharing argument objects, run in one process forked '
        'from a pristine one; every outcome is compared with the same operation run with fresh '
        'arguments in a process of its own, and every argument object is compared before and '
        'after; evaluations counts the operations of the histories; distinct by sequence and '
        'specifications')
ASSUMPTIONS = ['the forked processes share the imported modules and nothing else']
REQUIRE = {'operations': 4000, 'fresh_runs': 2500, 'snapshots': 8000, 'shared_objects': 1500,
           'failed_operations': 500, 'repeated': 500, 'after_failure': 600, 'same_paths': 1000,
           'spoiled_results': 1500, 'arrays': 500,
           'settings_compared': 80000}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    return [('seq', n) for n in range(1300 * q)]


def snap(o, depth=0):
    """What an argument object says through its public interface."""
    if isinstance(o, np.ndarray):
        return ('nd', repr(o.dtype), o.shape, o.strides, o.flags.writeable, npgen.content(o))
    if isinstance(o, (bytes, str, int, float, bool, type(None))):
        return (type(o).__name__, repr(o))
    if isinstance(o, dict):
        return ('dict',) + tuple((repr(k), snap(v, depth + 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(v, depth + 1) for v in o)
    if callable(o) and not hasattr(o, 'items'):
        return ('callable', id(o))
    if hasattr(o, 'items'):
        return (type(o).__name__,) + tuple((k, snap(v, depth + 1)) for k, v in o.items())
    return (type(o).__name__, repr(o))


def world():
    """The settings of the process that an operation could leave behind changed."""
    from bloscpack import log
    n = blosc.set_nthreads(1)
    blosc.set_nthreads(n)
    gil = blosc.set_releasegil(False)
    blosc.set_releasegil(bool(gil))
    m = os.umask(0)
    os.umask(m)
    return {
        'working directory': os.getcwd(), 'umask': m, 'Blosc threads': n,
        'Blosc block size': blosc.get_blocksize(), 'Blosc and the GIL': gil,
        'log level': getattr(log, 'LEVEL', None), 'log prefix': getattr(log, 'PREFIX', None),
        'recursion limit': sys.getrecursionlimit(), 'environment': sorted(os.environ.items()),
        'NumPy errors': sorted(np.geterr().items()),
        'NumPy printing': repr(sorted(np.get_printoptions().items(), key=str)),
        'NumPy random state': hash(np.random.get_state()[1].tobytes()),
        'random state': hash(random.getstate()),
        'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'warning filters': repr(warnings.filters), 'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': [repr(signal.getsignal(x)) for x in
                            (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM,
                             signal.SIGCHLD, signal.SIGHUP, signal.SIGUSR1)],
        'signal mask': sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())),
        'threads': threading.active_count(), 'decimal context': repr(decimal.getcontext().prec),
        'limits': [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE,
                                                   resource.RLIMIT_AS, resource.RLIMIT_CORE)],
        'standard streams': [id(x) for x in (sys.stdin, sys.stdout, sys.stderr, sys.excepthook,
                                             sys.displayhook)],
        'import path': list(sys.path), 'switch interval': sys.getswitchinterval(),
        'tracing': (sys.gettrace(), sys.getprofile()),
        'built-in functions': [id(x) for x in (builtins.open, builtins.print,
                                               builtins.__import__, os.open, os.fsync)],
        'temporary directory': tempfile.tempdir, 'socket timeout': socket.getdefaulttimeout()}


def in_child(fn):
    """Result of fn() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 100)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            with os.fdopen(w, 'wb') as fp:
                try:
                    pickle.dump(('ok', fn()), fp)
                except BaseException as e:
                    import traceback
                    pickle.dump(('error', repr(e), traceback.format_exc()), fp)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        raise core.Violation('operation ended in signal %d' % os.WTERMSIG(st))
    res = pickle.loads(data)
    if res[0] == 'error':
        raise RuntimeError(res[2])
    return res[1]


def sequence(ctx):
    """[(operation, shared slots)]: operations drawing their arguments from common
    specifications use common objects."""
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 6, 8])
    k = rng.random()
    kinds = opkit.KINDS if k < 0.45 else rng.sample(opkit.KINDS, 2)
    if k > 0.85:
        # one operation with different arguments
        kinds = [rng.choice(opkit.KINDS)] if k < 0.95 else [opkit.o_chunks]
        n += 4
    seq = []
    pool = {}
    for _ in range(n):
        if seq and rng.random() < 0.25:
            seq.append(rng.choice(seq))
            ctx.event('repeated')
            continue
        if seq and rng.random() < 0.12:
            t = opkit.twin(rng.choice(seq)[0], rng)
            if t is not None:
                seq.append((t, {}))
                ctx.event('equal_but_other')
                continue
        op = opkit.make(rng, kinds)
        use = {}
        for k in op.specs:
            if k in ('blosc', 'bpack', 'ma', 'appblosc', 'meta') and 'refused' not in op.name:
                have = pool.setdefault(k, [])
                if have and rng.random() < 0.7:
                    use[k] = rng.randrange(len(have))
                    if not (k == 'meta' and op.name == '_rewrite_metadata_fp'):
                        op.specs[k] = have[use[k]]
                    else:
                        use[k] = len(have)
                        have.append(op.specs[k])
                else:
                    use[k] = len(have)
                    have.append(op.specs[k])
        seq.append((op, use))
    return seq, pool


def dirs(ctx, seq, tag):
    out = []
    if ctx.rng.random() < 0.4:
        # the same names again and again, with other content
        d = os.path.join(ctx.dir, tag)
        os.mkdir(d)
        return [d] * len(seq)
    for i, (op, _) in enumerate(seq):
        d = os.path.join(ctx.dir, '%s%d' % (tag, i))
        os.mkdir(d)
        op.prepare(d)
        out.append(d)
    return out


def renew(op, d, same_time):
    """The directory as the operation expects it, whatever was there before."""
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    op.prepare(d)
    if same_time:
        for n in os.listdir(d):
            os.utime(os.path.join(d, n), ns=(10 ** 18, 10 ** 18))


def history(seq, pool, ds, same_time, spoil):
    shared = len(set(ds)) < len(ds)
    objs = dict(((k, i), opkit.make_arg(k, s)) for k, l in pool.items()
                for i, s in enumerate(l))
    own = {}
    out = []
    for (op, use), d in zip(seq, ds):
        if id(op) not in own:
            own[id(op)] = op.args([k for k in op.specs if k not in use])
        a = dict(own[id(op)])
        for k, i in use.items():
            a[k] = objs[k, i]
        before = dict((k, snap(o)) for k, o in a.items())
        w = world()
        if shared:
            renew(op, d, same_time)
        r = op.outcome(d, a, spoil=spoil)
        after = dict((k, snap(o)) for k, o in a.items())
        changed = [(k, before[k], after[k]) for k in a if before[k] != after[k]]
        w2 = world()
        out.append((r, changed, len(a), [(k, w[k], w2[k]) for k in w if w[k] != w2[k]]))
    return out


def case(ctx, kind, arg):
    seq, pool = sequence(ctx)
    names = [op.name for op, _ in seq]
    ctx.note = {'sequence': names, 'shared': [u for _, u in seq]}
    ds = dirs(ctx, seq, 'h')
    shared, same_time, spoil = len(set(ds)) < len(ds), ctx.rng.random() < 0.5, \
        ctx.rng.random() < 0.5
    ctx.event('same_paths', len(seq) if shared else 0)
    ctx.event('spoiled_results', len(seq) if spoil else 0)
    got = in_child(lambda: history(seq, pool, ds, same_time, spoil))
    fresh = {}
    failed = False
    seen = {}
    for i, ((op, use), (r, changed, n, w)) in enumerate(zip(seq, got)):
        ctx.event('operations')
        ctx.event('settings_compared', 28)
        ctx.event('evaluations')
        ctx.event('snapshots', n)
        for k, j in use.items():
            seen[k, j] = seen.get((k, j), 0) + 1
        if 'array' in op.specs:
            ctx.event('arrays')
        if failed:
            ctx.event('after_failure')
        if r[0] == 'exc':
            failed = True
            ctx.event('failed_operations')
        if changed:
            k, b, a = changed[0]
            ctx.fail('%s changed its argument %r' % (op.name, k), before=b, after=a)
        if w:
            ctx.fail('%s changed the settings of the process (%s)' %
                     (op.name, ', '.join(x[0] for x in w)), before=[x[1] for x in w],
                     after=[x[2] for x in w])
        if id(op) not in fresh:
            d = os.path.join(ctx.dir, 'f%d' % i)
            os.mkdir(d)
            op.prepare(d)
            fresh[id(op)] = in_child(lambda: op.outcome(d))
            ctx.event('fresh_runs')
        if r != fresh[id(op)]:
            ctx.fail('%s as operation %d of a history gives another outcome than in a fresh '
                     'process' % (op.name, i), history=r, fresh=fresh[id(op)],
                     specs={k: v for k, v in op.specs.items() if k not in ('img', 'data')})
        ctx.event('assertions', 3)
    ctx.event('shared_objects', sum(1 for v in seen.values() if v > 1))
    ctx.nontrivial(names, [repr(op.specs) for op, _ in seq])
    ctx.sample({'sequence': names, 'shared': [u for _, u in seq]})
