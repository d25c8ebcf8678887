"""Dispatcher and worker side of every check."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BPV_REPO', '/repo')
PY = sys.executable
BAD_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE,
               signal.SIGILL}
CASE_CPU = 60          # processor seconds one case may use
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
    """The observed execution contradicts the property."""

    def __init__(self, msg, key=None, **details):
        Exception.__init__(self, msg)
        self.msg, self.key, self.details = msg, key, details


class Skip(Exception):
    """This case does not apply (counted, never silently)."""


class CaseHang(BaseException):
    pass


def is_ordinary(exc):
    """An exception a caller can be expected to handle."""
    if isinstance(exc, (MemoryError, RecursionError, Violation, Skip,
                        AssertionError)):
        return False
    if isinstance(exc, Exception):
        return True
    # the library derives this one from BaseException
    return type(exc).__name__ == 'ChunkingException'


def short(o, n=300):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


class Ctx(object):
    """What a case gets: random numbers, scratch space, counters, verdicts."""

    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.state = {}
        self.n = 0
        self.verbose = False
        self.note = {}

    # -- cases
    def begin(self, kind, arg):
        self.rng = random.Random('%s:%s:%s:%s' % (self.seed, self.prop, kind, arg))
        self.note = {}
        self.dir_made = False

    @property
    def dir(self):
        if not self.dir_made:
            self.n += 1
            self._dir = os.path.join(self.tmp, 'c%d' % self.n)
            os.mkdir(self._dir)
            self.dir_made = True
        return self._dir

    def end(self):
        if self.dir_made:
            shutil.rmtree(self._dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- observation
    def event(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, *sig):
        self.sigs.add(hashlib.blake2b(repr(sig).encode('utf-8', 'replace'),
                                      digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=short)))

    # -- verdicts
    def fail(self, msg, key=None, **details):
        raise Violation(msg, key, **details)

    def check(self, cond, msg, key=None, **details):
        self.event('assertions')
        if not cond:
            raise Violation(msg, key, **details)

    def must(self, what, fn, *a, **k):
        """fn has to succeed."""
        try:
            return fn(*a, **k)
        except (CaseHang, Violation, Skip, KeyboardInterrupt):
            raise
        except BaseException as e:
            raise Violation('%s failed: %s: %s' % (what, type(e).__name__, short(str(e))),
                            traceback=traceback.format_exc()[-3000:])

    def must_refuse(self, what, fn, *a, **k):
        """fn has to raise an ordinary exception; returns it."""
        try:
            r = fn(*a, **k)
        except (CaseHang, Violation, Skip, KeyboardInterrupt):
            raise
        except BaseException as e:
            if is_ordinary(e):
                self.event('refusals')
                self.event('refused:' + type(e).__name__)
                return e
            raise Violation('%s ended in %s: %s' % (what, type(e).__name__, short(str(e))),
                            traceback=traceback.format_exc()[-3000:])
        raise Violation('%s was accepted' % what, result=short(r))

    def outcome(self, fn, *a, **k):
        """('ok', result) or ('exc', type name, text); anything else is a violation."""
        try:
            return ('ok', fn(*a, **k))
        except (CaseHang, Violation, Skip, KeyboardInterrupt):
            raise
        except BaseException as e:
            if is_ordinary(e):
                return ('exc', type(e).__name__, str(e))
            raise


def load(prop):
    return importlib.import_module('mon.checks.' + prop.lower())


# ---------------------------------------------------------------- worker side

def _lines_monitor():
    """Records which lines of /repo's package were executed (sys.monitoring:
    each location reports once, then costs nothing)."""
    seen = set()
    try:
        mon = sys.monitoring
        prefix = os.path.join(REPO, 'bloscpack') + os.sep
        tool = mon.COVERAGE_ID
        mon.use_tool_id(tool, 'bpv')

        def cb(code, line):
            if code.co_filename.startswith(prefix):
                seen.add('%s:%d' % (code.co_filename[len(prefix):], line))
            return mon.DISABLE
        mon.register_callback(tool, mon.events.LINE, cb)
        mon.set_events(tool, mon.events.LINE)
    except Exception:
        pass
    return seen


def check_origin():
    import bloscpack
    here = os.path.realpath(os.path.dirname(bloscpack.__file__))
    if here != os.path.realpath(os.path.join(REPO, 'bloscpack')):
        raise SystemExit('bloscpack imported from %s, not %s' % (here, REPO))


def run_one(mod, ctx, case):
    """Runs a case; returns None or a violation record."""
    kind, arg = case
    ctx.begin(kind, arg)

    def on_cpu(signum, frame):
        raise CaseHang()
    limit = getattr(mod, 'CASE_CPU', CASE_CPU)
    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.case(ctx, kind, arg)
        return None
    except Skip as s:
        ctx.event('skipped:' + str(s))
        return None
    except Violation as v:
        d = dict(v.details)
        d.update(ctx.note)
        if ctx.verbose:
            traceback.print_exc()
        return {'msg': v.msg, 'key': v.key,
                'details': {k: short(x, 3000) for k, x in d.items()}}
    except CaseHang:
        return {'msg': 'operation did not terminate within %d s of processor time' % limit,
                'key': None, 'details': {'traceback': traceback.format_exc()[-3000:],
                                         **{k: short(x) for k, x in ctx.note.items()}}}
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()[-4000:]
        if type(e).__name__ == 'Bad' and type(e).__module__ == 'mon.ref':
            # the independent parser rejects what the library wrote
            return {'msg': 'the file written does not follow the format: %s' % short(str(e)),
                    'key': None, 'details': {'traceback': text,
                                             **{k: short(x) for k, x in ctx.note.items()}}}
        pkg = os.path.join(REPO, 'bloscpack') + os.sep
        if any(f.filename.startswith(pkg) for f in tb):
            return {'msg': 'unexpected %s: %s' % (type(e).__name__, short(str(e))),
                    'key': None, 'details': {'traceback': text,
                                             **{k: short(x) for k, x in ctx.note.items()}}}
        if isinstance(e, (KeyError, IndexError)) or "'NoneType' object" in str(e):
            # a result lacks what it has on every correct implementation
            return {'msg': 'a result is incomplete: %s: %s' % (type(e).__name__, short(str(e))),
                    'key': None, 'details': {'traceback': text,
                                             **{k: short(x) for k, x in ctx.note.items()}}}
        return {'error': text}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        try:
            if hasattr(mod, 'cleanup'):
                mod.cleanup(ctx)
        finally:
            ctx.end()


def worker(a):
    import faulthandler
    proto = os.fdopen(os.dup(1), 'w', buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    faulthandler.enable()

    def send(**k):
        proto.write(json.dumps(k) + '\n')

    try:
        mod = load(a.prop)
        if getattr(mod, 'MEM_LIMIT', 6 << 30):
            lim = getattr(mod, 'MEM_LIMIT', 6 << 30)
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        lines = _lines_monitor()
        import blosc
        blosc.set_nthreads(1)
        check_origin()
        ctx = Ctx(a.prop, a.tier, a.seed, a.tmp)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        cases = mod.plan(a.tier, a.seed)
        if a.limit:
            cases = cases[:a.limit]
    except Exception:
        send(error='worker set-up:\n' + traceback.format_exc())
        return 3
    nviol = 0
    for idx in range(a.worker, len(cases), a.jobs):
        if idx < a.start:
            continue
        send(start=idx)
        v = run_one(mod, ctx, cases[idx])
        if v is None:
            send(done=idx)
        elif 'error' in v:
            send(error=v['error'], idx=idx, case=cases[idx])
        else:
            known = v['key'] is not None and v['key'] in a.known
            send(violation=v, idx=idx, case=cases[idx], known=known)
            if not known:
                nviol += 1
                if nviol >= 2:
                    break
    if hasattr(mod, 'teardown'):
        mod.teardown(ctx)
    send(counters=dict(ctx.counters), sigs=sorted(ctx.sigs), samples=ctx.samples,
         lines=sorted(lines))
    proto.close()
    return 0


# ------------------------------------------------------------ dispatcher side

def read_known(prop):
    """key -> text of the known findings of this property ('finding:' lines)."""
    out = {}
    try:
        with open(KNOWN) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('finding: '):
                    parts = line[len('finding: '):].split(None, 2)
                    f = dict(p.split('=', 1) for p in parts[:2])
                    if f.get('property') == prop:
                        out[f['key']] = parts[2]
    except IOError:
        pass
    return out


def worker_env(mod):
    env = dict((k, v) for k, v in os.environ.items()
               if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR', 'BPV_REPO',
                        'LD_LIBRARY_PATH'))
    env.update(PYTHONPATH=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1')
    env.setdefault('LANG', 'C.UTF-8')
    if hasattr(mod, 'env'):
        env.update(mod.env())
    return env


class W(object):
    pass


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('BPV_JOBS', 8)))
    ap.add_argument('--limit', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int, default=None)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--tmp')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    a.prop = a.prop.upper()
    a.known = read_known(a.prop)
    if a.replay:
        return replay(a)
    if a.worker is not None:
        return worker(a)
    return dispatch(a)


def replay(a):
    with open(a.replay) as fp:
        r = json.load(fp)
    a.tier, a.seed = r['tier'], r['seed']
    mod = load(a.prop)
    env = worker_env(mod)
    if os.environ.get('BPV_REPLAY_CHILD') != '1':
        env['BPV_REPLAY_CHILD'] = '1'
        return subprocess.call([PY, os.path.join(VERIF, 'check.py'), a.prop,
                                '--replay', a.replay], env=env)
    import blosc
    blosc.set_nthreads(1)
    check_origin()
    tmp = tempfile.mkdtemp(prefix='bpv-replay-')
    try:
        ctx = Ctx(a.prop, a.tier, a.seed, tmp)
        ctx.verbose = True
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        v = run_one(mod, ctx, tuple(r['case']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(v, indent=1))
    if v and 'msg' in v:
        print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1
    return 3 if v else 0


def dispatch(a):
    t0 = time.time()
    mod = load(a.prop)
    if hasattr(mod, 'build'):
        mod.build()
    ncases = len(mod.plan(a.tier, a.seed))
    if a.limit:
        ncases = min(ncases, a.limit)
    watchdog = {'quick': 700, 'thorough': 5400}[a.tier]
    tmp = tempfile.mkdtemp(prefix='bpv-%s-' % a.prop)
    env = worker_env(mod)
    sel = selectors.DefaultSelector()
    workers = {}
    counters = collections.Counter()
    sigs, lines, samples = set(), set(), []
    violations, knowns, errors, inconclusive = [], [], [], []
    done = 0
    stop_at = None

    def spawn(n, start):
        w = W()
        w.n, w.cur, w.buf, w.finished, w.restarts = n, None, b'', False, 0
        w.tmp = tempfile.mkdtemp(prefix='w%d-' % n, dir=tmp)
        w.err = open(os.path.join(tmp, 'err%d' % n), 'ab+')
        cmd = [PY, os.path.join(VERIF, 'check.py'), a.prop, '--tier', a.tier,
               '--seed', str(a.seed), '--jobs', str(a.jobs), '--worker', str(n),
               '--start', str(start), '--tmp', w.tmp, '--limit', str(a.limit)]
        w.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=w.err,
                               stdin=subprocess.DEVNULL, env=env, cwd=w.tmp,
                               start_new_session=True)
        os.set_blocking(w.p.stdout.fileno(), False)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        workers[n] = w
        return w

    def kill(w):
        try:
            os.killpg(w.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def handle(w, m):
        nonlocal done, stop_at
        if 'start' in m:
            w.cur = m['start']
        elif 'done' in m:
            w.cur = None
            done += 1
        elif 'violation' in m:
            w.cur = None
            done += 1
            if m['known']:
                knowns.append(m)
            else:
                violations.append(m)
                if stop_at is None and not a.keep_going:
                    stop_at = time.time() + 3
        elif 'error' in m:
            w.cur = None
            errors.append(m)
            if stop_at is None:
                stop_at = time.time() + 3
        elif 'counters' in m:
            counters.update(m['counters'])
            sigs.update(m['sigs'])
            lines.update(m['lines'])
            samples.extend(m['samples'])
            w.finished = True

    try:
        for n in range(min(a.jobs, max(1, ncases))):
            spawn(n, 0)
        while workers:
            for key, _ in sel.select(timeout=0.5):
                w = key.data
                try:
                    data = os.read(w.p.stdout.fileno(), 1 << 20)
                except BlockingIOError:
                    continue
                if data:
                    w.buf += data
                    while b'\n' in w.buf:
                        line, w.buf = w.buf.split(b'\n', 1)
                        handle(w, json.loads(line))
                    continue
                sel.unregister(w.p.stdout)
                rc = w.p.wait()
                w.p.stdout.close()
                del workers[w.n]
                kill(w)
                w.err.seek(0)
                errtext = w.err.read()[-3000:].decode('utf-8', 'replace')
                w.err.close()
                if w.finished or stop_at is not None:
                    continue
                if rc < 0 and -rc in BAD_SIGNALS and w.cur is not None:
                    case = mod.plan(a.tier, a.seed)[w.cur]
                    m = {'violation': {
                        'msg': 'interpreter killed by %s' % signal.Signals(-rc).name,
                        'key': None, 'details': {'stderr': errtext}},
                        'idx': w.cur, 'case': case, 'known': False}
                    violations.append(m)
                    if not a.keep_going:
                        stop_at = time.time() + 3
                    else:
                        spawn(w.n, w.cur + 1)
                else:
                    inconclusive.append('worker %d ended with %s in case %s\n%s' %
                                        (w.n, rc, w.cur, errtext))
            now = time.time()
            if (stop_at is not None and now > stop_at) or now - t0 > watchdog:
                if now - t0 > watchdog:
                    inconclusive.append('watchdog after %d s' % watchdog)
                for w in list(workers.values()):
                    kill(w)
                stop_at = stop_at or now
                if now - t0 > watchdog + 10:
                    break
    finally:
        for w in list(workers.values()):
            kill(w)
        shutil.rmtree(tmp, ignore_errors=True)

    if not violations and not errors and not inconclusive:
        req = dict(getattr(mod, 'REQUIRE', {}))
        if a.limit:
            req = {}
        for name, least in req.items():
            if counters.get(name, 0) < least:
                inconclusive.append('monitor saw %s=%d, needs %d' %
                                    (name, counters.get(name, 0), least))
    wall = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    evaluations = counters.pop('evaluations', 0) or done
    ev = {'property': a.prop, 'tier': a.tier, 'seed': a.seed,
          'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': evaluations,
                       'distinct_nontrivial': len(sigs),
                       'rule': mod.RULE,
                       'samples': samples[:5] or ['none'],
                       'cases_planned': ncases, 'cases_run': done,
                       'observed': dict(sorted(counters.items())),
                       'repo_lines_executed': len(lines)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': wall, 'violations': len(violations)}
    if violations or errors or inconclusive:
        ev['coverage']['incomplete'] = True
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write('\n')

    seen = set()
    for m in knowns:
        k = m['violation']['key']
        if k not in seen:
            seen.add(k)
            print('KNOWN-FINDING: property=%s %s' % (a.prop, a.known[k]))
    print('%s %s: %d/%d cases, %d evaluations, %d distinct, %d repo lines, %.1f s' %
          (a.prop, a.tier, done, ncases, evaluations, len(sigs), len(lines), wall))
    if violations:
        violations.sort(key=lambda m: m['idx'])
        for m in violations[:5]:
            rel = 'evidence/replays/%s-%s-%d.json' % (a.prop, a.tier, m['idx'])
            with open(os.path.join(VERIF, rel), 'w') as fp:
                json.dump({'property': a.prop, 'tier': a.tier, 'seed': a.seed,
                           'index': m['idx'], 'case': m['case'],
                           'violation': m['violation'],
                           'run': 'cd /verif && %s check.py %s --replay %s' %
                           (PY, a.prop, rel)}, fp, indent=1)
            print('  case %s: %s' % (m['case'], m['violation']['msg']))
            print('VIOLATION property=%s replay=%s' % (a.prop, rel))
        return 1
    if errors:
        for m in errors[:2]:
            print('HARNESS ERROR', m.get('case'), m['error'][-700:])
        return 3
    if inconclusive:
        for m in inconclusive[:5]:
            print('INCONCLUSIVE', m)
        return 2
    return 0
