"""Monitor of interpreter audit events during an operation."""
import os
import sys

from . import core

_on = [None]
_installed = [False]

#: events that reading a file has no business to cause
FORBIDDEN = ('os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.spawn',
             'os.startfile', 'subprocess.Popen', 'pty.spawn', 'os.kill', 'os.killpg',
             'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod',
             'os.chown', 'os.link', 'os.symlink', 'os.putenv', 'os.unsetenv', 'os.utime',
             'os.chdir', 'os.fchdir', 'os.chflags', 'os.setxattr', 'os.removexattr',
             'os.listdir', 'os.scandir', 'glob.glob', 'os.walk', 'os.fwalk',
             'urllib.Request', 'webbrowser.open', 'pickle.find_class', 'code.__new__',
             'signal.pthread_kill', 'fcntl.lockf', 'fcntl.flock', 'sqlite3.connect',
             'sys.settrace', 'sys.setprofile', 'ctypes.dlopen', 'ctypes.dlsym',
             'ftplib.connect', 'http.client.connect', 'smtplib.connect', 'sys.unraisablehook')
PREFIXES = ('socket.', 'shutil.', 'tempfile.', 'pathlib.', 'ensurepip.', 'syslog.',
            'ftplib.', 'imaplib.', 'nntplib.', 'poplib.', 'smtplib.', 'telnetlib.',
            'resource.', 'mmap.')


def _lib(path):
    """A source or bytecode file of the interpreter, its packages or the repository."""
    p = os.path.realpath(path)
    roots = [os.path.dirname(os.__file__), sys.prefix, sys.base_prefix, core.REPO, core.VERIF]
    roots = [os.path.realpath(r) + os.sep for r in roots]
    return any(p.startswith(r) for r in roots) and \
        p.endswith(('.py', '.pyc', '.so', '.pth', '.txt', '.toml', '.zip')) or \
        os.path.isdir(p)


def _hook(event, args):
    log = _on[0]
    if log is None:
        return
    try:
        if event == 'open':
            log.append(('open', args[0], args[1], args[2]))
        elif event == 'exec':
            log.append(('exec', args[0].co_filename, args[0].co_name, repr(args[0].co_names)))
        elif event == 'import':
            log.append(('import', args[0]))
        elif event == 'compile':
            log.append(('compile', args[0]))
        elif event in FORBIDDEN or event.startswith(PREFIXES):
            log.append((event,) + tuple(repr(a)[:200] for a in args))
        elif event.startswith(('marshal.', 'cpython.', 'ctypes.')):
            log.append((event,))
    except Exception as e:      # never disturb the operation
        log.append(('monitor', repr(e)))


def install():
    if not _installed[0]:
        sys.addaudithook(_hook)
        _installed[0] = True


class Watch(object):
    def __enter__(self):
        self.log = []
        _on[0] = self.log
        return self

    def __exit__(self, *a):
        _on[0] = None


def judge(log, inputs, outputs, cwd, sentinels, read_only=True):
    """None or what is wrong. inputs/outputs: paths that may be opened."""
    real = lambda p: os.path.realpath(os.path.join(cwd, os.fsdecode(p)))
    ins, outs = set(map(real, inputs)), set(map(real, outputs))
    for e in log:
        if e[0] == 'open':
            if isinstance(e[1], int) or e[1] is None:
                continue
            p = real(e[1])
            mode, flags = e[2], e[3]
            writes = (isinstance(mode, str) and set(mode) & set('wax+')) or \
                (mode is None and isinstance(flags, int) and
                 flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if p in ins and not writes:
                continue
            if p in outs:
                continue
            if p in ins:
                return 'opened the input for writing (%r)' % (e,)
            if not writes and _lib(p) and not any(s in p for s in sentinels):
                continue
            return 'opened another file: %r' % (e,)
        elif e[0] == 'exec':
            f = e[1]
            if f.startswith('<frozen') or (not f.startswith('<') and _lib(f)):
                continue
            return 'executed code: %r' % (e,)
        elif e[0] == 'import':
            if any(s in e[1] for s in sentinels):
                return 'imported what the file names: %r' % (e,)
        elif e[0] == 'compile':
            continue
        elif e[0] == 'monitor':
            return 'monitor failed: %s' % e[1]
        elif e[0].startswith(('marshal.', 'cpython.')):
            continue
        elif e[0] in ('ctypes.dlopen', 'ctypes.dlsym') or e[0].startswith('ctypes.'):
            if e[0] == 'ctypes.dlopen':
                return 'loaded a library: %r' % (e,)
        else:
            return '%s: %r' % (e[0], e[1:])
    return None
