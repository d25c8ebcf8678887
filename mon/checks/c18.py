"""C18: independent operations running concurrently do not affect each other."""
import os
import sys
import threading
import time

import blosc

from .. import opkit, sched

RULE = ('a case is a set of independent operations whose solitary outcomes are compared with '
        'their outcomes in several concurrent runs; evaluations counts the concurrent '
        'operation runs; distinct by operations and observed switch sequence')
ASSUMPTIONS = ['Blosc uses one thread per operation',
               'in controlled runs threads switch between lines of the library and at file '
               'operations, in free runs wherever the interpreter switches']
REQUIRE = {'runs': 2500, 'switches': 50000, 'operations': 5000, 'paused_runs': 800,
           'free_runs': 60, 'shared_arguments': 80, 'same_kind': 300, 'exceptions': 500,
           'release_gil': 5}


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 40}[tier]
    return ([('ctl', n) for n in range(420 * q)] + [('pause', n) for n in range(450 * q)] +
            [('free', n) for n in range(24 * q)])


def setup(ctx):
    sched.install()


SLOTS = ('blosc', 'bpack', 'ma')


def draw(ctx, n):
    """Operations and their argument objects, some of them shared."""
    rng = ctx.rng
    base = opkit.KINDS
    if rng.random() < 0.45:
        base = rng.sample(opkit.KINDS, 1)
        ctx.event('same_kind')
    ops_ = []
    shared = {}
    share = rng.random() < 0.35
    rich = rng.random() < 0.5
    for _ in range(n):
        op = opkit.make(rng, base, rich)
        args = op.args()
        if share:
            for k in SLOTS:
                if k in args and 'refused' not in op.name:
                    if k in shared:
                        op.specs[k], args[k] = shared[k]
                    else:
                        shared[k] = (op.specs[k], args[k])
        ops_.append((op, args))
    if shared:
        ctx.event('shared_arguments')
    return ops_


def solo(ctx, ops_):
    """Outcome of each operation alone, and how many scheduling points it has."""
    out = []
    for i, (op, _) in enumerate(ops_):
        d = os.path.join(ctx.dir, 's%d' % i)
        os.mkdir(d)
        op.prepare(d)
        with sched.Counter() as c:
            r = op.outcome(d, None, sched.Fp)
        out.append((r, c))
        if r[0] == 'exc':
            ctx.event('exceptions')
    return out


def dirs(ctx, ops_, tag):
    ds = []
    for i, (op, _) in enumerate(ops_):
        d = os.path.join(ctx.dir, '%s-%d' % (tag, i))
        os.mkdir(d)
        op.prepare(d)
        ds.append(d)
    return ds


def compare(ctx, ops_, want, got, how):
    for (op, _), (w, _), g in zip(ops_, want, got):
        ctx.event('operations')
        ctx.event('evaluations')
        if g != w:
            ctx.fail('%s gives another outcome when run together with %s' %
                     (op.name, ', '.join(o.name for o, _ in ops_ if o is not op)),
                     schedule=how, alone=w, together=g,
                     specs={k: v for k, v in op.specs.items() if k not in ('img', 'data')})
        ctx.event('assertions')


def case(ctx, kind, arg):
    rng = ctx.rng
    if kind == 'free':
        return case_free(ctx)
    sched.Counter.paused.clear()
    n = rng.choice([2, 2, 2, 3, 3, 4, 8])
    ops_ = draw(ctx, n)
    want = solo(ctx, ops_)
    ctx.note = {'operations': [o.name for o, _ in ops_]}
    for r in range(4 if kind == 'ctl' else 8):
        if kind == 'ctl':
            policy = ('p', rng.choice([0.01, 0.05, 0.2, 0.5, 1.0]))
        elif rng.random() < 0.7:
            # one thread stops anywhere while all others run to their end
            i = rng.randrange(n)
            policy = ('pause', i, want[i][1].choose(rng))
            ctx.event('paused_runs')
        else:
            order = rng.sample(range(n), n)
            policy = ('pauses', [(i, want[i][1].choose(rng)) for i in order])
            ctx.event('paused_runs')
        ds = dirs(ctx, ops_, 'r%d' % r)
        s = sched.Sched(rng, policy)
        got = s.run([lambda op=op, a=a, d=d: op.outcome(d, a, sched.Fp)
                     for (op, a), d in zip(ops_, ds)])
        if got is None:
            ctx.fail('concurrent operations did not finish', schedule=policy)
        if s.errors:
            raise s.errors[0][1]
        ctx.event('runs')
        ctx.event('switches', len(s.trace))
        if s.free and not len(s.alive) == 0:
            ctx.event('gave_up_control')
        ctx.nontrivial(ctx.note['operations'], s.trace)
        compare(ctx, ops_, want, got, (policy, s.trace[-20:]))
    ctx.sample({'operations': ctx.note['operations'], 'policy': policy,
                'switches': s.trace[:6]})


class Delay(sched.Fp):
    def _p(self, name):
        n = self.count = getattr(self, 'count', 0) + 1
        if n % 7 == 0:
            time.sleep(0)
        elif n % 53 == 0:
            time.sleep(0.0002)


def case_free(ctx):
    """Real concurrency: very small switch interval, delays in file operations."""
    rng = ctx.rng
    n = rng.choice([4, 8, 8])
    ops_ = draw(ctx, n)
    gil = rng.random() < 0.5
    old = sys.getswitchinterval()
    blosc.set_releasegil(gil)
    if gil:
        ctx.event('release_gil')
    try:
        want = solo(ctx, ops_)
        sys.setswitchinterval(1e-6)
        for r in range(4):
            ds = dirs(ctx, ops_, 'f%d' % r)
            got = [None] * n
            bar = threading.Barrier(n)

            def body(i):
                (op, a), d = ops_[i], ds[i]
                bar.wait()
                try:
                    got[i] = op.outcome(d, a, Delay)
                except BaseException as e:
                    got[i] = ('raised', repr(e))
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(100)
            ctx.check(not any(t.is_alive() for t in ts), 'concurrent operations did not finish')
            ctx.event('free_runs')
            ctx.nontrivial([o.name for o, _ in ops_], r, 'free')
            compare(ctx, ops_, want, got, 'free')
    finally:
        sys.setswitchinterval(old)
        blosc.set_releasegil(False)
