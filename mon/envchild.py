"""Runs operations of opkit in the environment it was started in; see checks/c29.py.

usage: envchild.py REPO VERIF SPEC OUT"""
import json
import sys

repo, verif, spec, out = sys.argv[1:5]
sys.path[:0] = [repo, verif]
sys.dont_write_bytecode = True

import gc
import os
import pickle
import random
import threading

import numpy as np

with open(spec) as fp:
    S = json.load(fp)


def prepared(names):
    """What the embedding program did before."""
    if 'gc' in names:
        gc.set_threshold(1)
    if 'gcoff' in names:
        gc.disable()
    if 'seterr' in names:
        np.seterr(all='raise')
    if 'printoptions' in names:
        np.set_printoptions(threshold=0, precision=1, suppress=True, linewidth=10)
    if 'legacy' in names:
        np.set_printoptions(legacy='1.13')
    if 'locale' in names:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    if 'trace' in names:
        sys.settrace(lambda *a: None)
    if 'profile' in names:
        sys.setprofile(lambda *a: None)
    if 'switch' in names:
        sys.setswitchinterval(1e-6)
    if 'alarms' in names:
        import signal
        signal.signal(signal.SIGALRM, lambda *a: None)
        signal.setitimer(signal.ITIMER_REAL, 0.001, 0.001)
    if 'nostdout' in names:
        sys.stdout = sys.stderr = None
    if 'descriptors' in names:
        for _ in range(300):
            os.open('/dev/null', os.O_RDONLY)
    if 'default_rng' in names:
        random.seed(1)
        np.random.seed(1)
    if 'warnings' in names:
        import warnings
        warnings.simplefilter('error')
    if 'releasegil' in names:
        import blosc
        blosc.set_releasegil(True)
    if 'argv' in names:
        sys.argv[:] = []
    if 'modules' in names:
        # a program with modules of such names of its own
        import types
        for n in ('args', 'log', 'headers', 'defaults', 'version', 'append', 'pretty', 'testutil'):
            sys.modules[n] = types.ModuleType(n)


def run():
    import blosc
    from mon import opkit
    blosc.set_nthreads(1)
    res = []
    mask = os.umask(0)
    os.umask(mask)
    for i, seed in enumerate(S['ops']):
        op = opkit.make(random.Random(seed))
        d = os.path.join(S['dir'], 'o%d' % i)
        os.mkdir(d, 0o755)
        op.prepare(d)
        for n in op.files:
            os.chmod(os.path.join(d, n), 0o640)
        r = op.outcome(d)
        modes = []
        for n in sorted(os.listdir(d)):
            st = os.lstat(os.path.join(d, n))
            want = 0o100640 if n in op.files else 0o100666 & ~mask
            modes.append((n, 'mode as expected' if st.st_mode == want else
                          'mode %o instead of %o' % (st.st_mode, want)))
        res.append((op.name, r, modes))
    with open(out + '.tmp', 'wb') as fp:
        pickle.dump(res, fp)
    os.rename(out + '.tmp', out)


def guarded():
    try:
        run()
    except BaseException:
        import traceback
        with open(out + '.err', 'w') as fp:
            traceback.print_exc(file=fp)


if S['stale_cwd']:
    d = os.path.join(S['dir'], 'gone')
    os.mkdir(d)
    os.chdir(d)
    os.rmdir(d)
prepared(S['inside'])
if 'thread' in S['inside']:
    t = threading.Thread(target=guarded)
    t.start()
    t.join()
elif 'fork' in S['inside']:
    import bloscpack
    pid = os.fork()
    if pid == 0:
        guarded()
        os._exit(0)
    os.waitpid(pid, 0)
else:
    guarded()
