"""Controlled thread scheduling: one thread runs at a time and hands over at
lines of the library and at file operations, as a seeded policy decides."""
import io
import os
import sys
import threading

from . import core

TOOL = 4
_prefix = os.path.join(core.REPO, 'bloscpack') + os.sep
_cur = [None]
_on = [False]


def _line(code, line):
    if not code.co_filename.startswith(_prefix):
        return sys.monitoring.DISABLE
    s = _cur[0]
    if s is not None:
        s.point(code.co_name, line)


def install():
    if not _on[0]:
        m = sys.monitoring
        m.use_tool_id(TOOL, 'bpv-sched')
        m.register_callback(TOOL, m.events.LINE, _line)
        m.set_events(TOOL, m.events.LINE)
        _on[0] = True


class Counter(object):
    """Counts the scheduling points of a run, and where they are."""
    paused = {}

    def __init__(self):
        self.n = 0
        self.where = {}

    def point(self, *where):
        self.n += 1
        self.where.setdefault(where, []).append(self.n)

    def choose(self, rng):
        """A point to stop at: places are taken in turn, loops are not favoured."""
        if not self.where:
            return 1
        least = min(self.paused.get(w, 0) for w in self.where)
        w = rng.choice([w for w in self.where if self.paused.get(w, 0) <= least])
        self.paused[w] = least + 1
        return rng.choice(self.where[w])

    def __enter__(self):
        _cur[0] = self
        return self

    def __exit__(self, *a):
        _cur[0] = None


class Fp(io.BytesIO):
    """File operations are scheduling points, too."""

    def _p(self, name):
        s = _cur[0]
        if s is not None:
            s.point(name, 0)

    def read(self, *a):
        self._p('read')
        r = io.BytesIO.read(self, *a)
        self._p('read')
        return r

    def write(self, b):
        self._p('write')
        r = io.BytesIO.write(self, b)
        self._p('write')
        return r

    def seek(self, *a):
        self._p('seek')
        return io.BytesIO.seek(self, *a)

    def tell(self):
        self._p('tell')
        return io.BytesIO.tell(self)


class Sched(object):
    """policy: ('p', probability) | ('pause', thread, step) | ('pauses', [(thread, step)..])"""

    def __init__(self, rng, policy):
        self.rng, self.policy = rng, policy
        self.ids = {}
        self.free = False
        self.trace = []
        self.points = 0

    def run(self, fns):
        n = len(fns)
        self.go = [threading.Event() for _ in range(n)]
        self.alive = set(range(n))
        self.done = threading.Event()
        self.steps = [0] * n
        self.results = [None] * n
        self.errors = []
        self.stopped = {}
        ready = threading.Barrier(n + 1)

        def body(i):
            self.ids[threading.get_ident()] = i
            ready.wait()
            self.wait(i)
            try:
                self.results[i] = fns[i]()
            except BaseException as e:
                self.errors.append((i, e))
            finally:
                self.leave(i)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        ready.wait()
        _cur[0] = self
        try:
            first = self.policy[1] if self.policy[0] == 'pause' else \
                self.policy[1][0][0] if self.policy[0] == 'pauses' else self.rng.randrange(n)
            self.go[first].set()
            finished = self.done.wait(60)
        finally:
            _cur[0] = None
            self.free = True
            for e in self.go:
                e.set()
        for t in ts:
            t.join(20)
        if not finished or any(t.is_alive() for t in ts):
            return None
        return self.results

    def wait(self, i):
        # a lock held by a stopped thread would block the running one: give up control
        if not self.free and not self.go[i].wait(10):
            self.free = True
            for e in self.go:
                e.set()
        self.go[i].clear()

    def leave(self, i):
        self.alive.discard(i)
        self.ids.pop(threading.get_ident(), None)
        if not self.alive:
            self.done.set()
            return
        if not self.free:
            self.hand(self.pick(i))

    def hand(self, k):
        self.go[k].set()

    def pick(self, i):
        others = sorted(self.alive - {i}) or [i]
        if self.stopped:
            run = [o for o in others if o not in self.stopped]
            if run:
                others = run
            else:
                # all paused: the one paused first goes on
                k = next(iter(self.stopped))
                del self.stopped[k]
                return k
        return self.rng.choice(others)

    def point(self, name, line):
        if self.free:
            return
        i = self.ids.get(threading.get_ident())
        if i is None:
            return
        self.points += 1
        self.steps[i] += 1
        pol = self.policy
        if pol[0] == 'p':
            if len(self.alive) < 2 or self.rng.random() >= pol[1]:
                return
        else:
            stops = [pol[1:]] if pol[0] == 'pause' else pol[1]
            if (i, self.steps[i]) not in stops or len(self.alive) < 2:
                return
            self.stopped[i] = True
        k = self.pick(i)
        if k == i:
            return
        self.trace.append((i, k, name, line))
        self.hand(k)
        self.wait(i)
