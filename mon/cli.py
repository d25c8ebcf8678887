"""Runs blpk commands, in a forked child of the worker or as a real process."""
import os
import signal
import subprocess
import sys
import time

from . import core


class R(object):
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def __repr__(self):
        return 'exit %s, stdout %r, stderr %r' % (self.rc, self.out[-600:], self.err[-600:])


def forked(args, cwd, timeout=120, before=None, after=None):
    """cli.main() in a child that shares nothing but the warm imports."""
    from bloscpack import cli
    out, err = os.path.join(cwd, '.cli.out'), os.path.join(cwd, '.cli.err')
    fo = os.open(out, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    fe = os.open(err, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    pid = os.fork()
    if pid == 0:
        rc = 99
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            os.dup2(fo, 1)
            os.dup2(fe, 2)
            os.close(fo)
            os.close(fe)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            os.chdir(cwd)
            sys.argv = ['blpk'] + list(args)
            try:
                if before:
                    before()
                cli.main()
                rc = 0
                if after:
                    after()
            except SystemExit as e:
                c = e.code
                rc = 0 if c is None else c if isinstance(c, int) else 1
                if c is not None and not isinstance(c, int):
                    sys.stderr.write('%s\n' % c)
            except BaseException:
                import traceback
                traceback.print_exc()
                rc = 1
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:
                rc = rc or 120
        finally:
            os._exit(rc & 0xff)
    t0 = time.time()
    status = None
    while status is None:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
        elif time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise core.Skip('blpk not finished in time')
        else:
            time.sleep(0.0005)
    os.close(fo)
    os.close(fe)
    o, e = open(out, 'rb').read(), open(err, 'rb').read()
    os.unlink(out)
    os.unlink(err)
    rc = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    return R(rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'))


def real(args, cwd, timeout=300):
    p = subprocess.run([core.PY, os.path.join(core.REPO, 'blpk')] + list(args), cwd=cwd,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    return R(p.returncode, p.stdout.decode('utf-8', 'replace'),
             p.stderr.decode('utf-8', 'replace'))


def run(rng, args, cwd, share=0.03):
    return real(args, cwd) if rng.random() < share else forked(args, cwd)
