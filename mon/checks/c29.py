"""C29: the surroundings of the process make no difference."""
import codecs
import json
import os
import pickle
import pty
import re
import resource
import subprocess

from .. import cli, core, gen, opkit, ops

RULE = ('a case runs the same library operations and blpk commands in a plain process and in one '
        'with other surroundings (locale and encodings, interpreter options, hash seed, allocator, '
        'umask, descriptors, working directory, settings of the embedding program) and compares '
        'outcomes, files, modes and messages; evaluations counts operations and commands; '
        'distinct by surroundings and operations')
ASSUMPTIONS = ['the BLOSC_* variables, which the Blosc library itself obeys, are not set',
               'messages with characters that the output encoding lacks are compared escaped']
REQUIRE = {'operations': 3000, 'commands': 450, 'failing_operations': 900, 'outputs': 300, 'varied_cwd': 15,
           'varied_encoding': 15, 'varied_hashseed': 15, 'varied_inside': 15, 'varied_interpreter': 15,
           'varied_malloc': 15, 'varied_misc': 15, 'varied_stdio': 15, 'varied_umask': 15}
VARIANTS = ('encoding', 'interpreter', 'hashseed', 'malloc', 'misc', 'cwd', 'umask', 'stdio',
            'inside')


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 7}[tier]
    return [('env', n) for n in range(160 * q)]


PLAIN = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': '/root', 'PYTHONHASHSEED': '0',
         'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}

ENCODINGS = [{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
             {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
             {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0',
              'PYTHONIOENCODING': 'utf-8'},
             {'LC_ALL': 'C'}, {'LANG': 'C'}, {'PYTHONUTF8': '1', 'LC_ALL': 'POSIX'},
             {'LANG': 'xx_YY.nonsense'}, {'PYTHONIOENCODING': 'ascii'},
             {'PYTHONIOENCODING': 'latin-1'}, {'PYTHONIOENCODING': 'utf-16'},
             {'PYTHONIOENCODING': 'cp437'}, {'LC_NUMERIC': 'C', 'LC_CTYPE': 'C.utf8'}]
FLAGS = [['-O'], ['-OO'], ['-X', 'dev'], ['-W', 'error'], ['-u'], ['-s', '-E'], ['-bb'],
         ['-X', 'utf8=0'], ['-B'], ['-I'], ['-X', 'faulthandler'],
         ['-X', 'tracemalloc=3']]
MALLOC = [{'MALLOC_PERTURB_': '165'}, {'MALLOC_PERTURB_': '90', 'PYTHONMALLOC': 'malloc'},
          {'PYTHONMALLOC': 'debug'}, {'PYTHONMALLOC': 'malloc', 'MALLOC_ARENA_MAX': '1'},
          {'MALLOC_PERTURB_': '255', 'PYTHONMALLOC': 'malloc_debug'}]
MISC = [{'TZ': 'Pacific/Kiritimati'}, {'COLUMNS': '20', 'LINES': '3'}, {'COLUMNS': '500'}, {'TERM': 'dumb'},
        {'TMPDIR': '/nonexistent'}, {'USER': 'someone', 'LOGNAME': 'someone'},
        {'PYTHONINSPECT': ''}, {'PYTHONOPTIMIZE': '2'}, {'PYTHONUNBUFFERED': '1'},
        {'PYTHONWARNINGS': 'error'}, {'DEBUG': '1', 'VERBOSE': '1', 'FORCE': '1', 'BLOSCPACK': 'x',
                                      'BLPK': '-f', 'BLOSCPACK_DEBUG': '1'},
        {'CHUNK_SIZE': '1', 'NTHREADS': '3'}, {'NO_COLOR': '1', 'CI': 'true'},
        {'PYTHONPROFILEIMPORTTIME': ''}, {'PYTHONSAFEPATH': '1'}]
INSIDE = ['gc', 'gcoff', 'seterr', 'printoptions', 'legacy', 'locale', 'trace', 'profile', 'switch',
          'alarms', 'nostdout', 'descriptors', 'default_rng', 'warnings', 'releasegil', 'argv',
          'modules', 'thread', 'fork']


def surroundings(rng):
    v = {'env': dict(PLAIN), 'flags': [], 'inside': [], 'umask': 0o022, 'cwd': None,
         'stdout': 'pipe', 'nofile': None, 'kinds': []}
    kinds = rng.sample(VARIANTS, rng.choice([1, 2, 3, 4]))
    v['kinds'] = sorted(kinds)
    if 'encoding' in kinds:
        v['env'].update(rng.choice(ENCODINGS))
    if 'interpreter' in kinds:
        v['flags'] = rng.choice(FLAGS)
    if 'hashseed' in kinds:
        v['env']['PYTHONHASHSEED'] = str(rng.randrange(1, 2 ** 32))
    if 'malloc' in kinds:
        v['env'].update(rng.choice(MALLOC))
    if 'misc' in kinds:
        for m in rng.sample(MISC, 4):
            v['env'].update(m)
        if rng.random() < 0.3:
            for k in ('HOME', 'PATH', 'LANG'):
                v['env'].pop(k, None)
    if 'cwd' in kinds:
        v['cwd'] = rng.choice(['/', 'gone', 'shadow'])
    if 'umask' in kinds:
        v['umask'] = rng.choice([0, 0o077, 0o027, 0o177, 0o002])
    if 'stdio' in kinds:
        v['stdout'] = rng.choice(['pty', 'file', 'file', 'nostdin', 'closed', 'stderr closed',
                                  'null'])
    if 'inside' in kinds:
        v['inside'] = rng.sample(INSIDE, rng.choice([1, 1, 2, 4]))
        if 'nostdout' in v['inside'] and 'profile' in v['inside']:
            v['inside'].remove('profile')
    return v


def start(v, args, cwd, timeout=300):
    """(exit status, output bytes) of a Python process with these surroundings."""
    def before():
        os.umask(v['umask'])
        if v['stdout'] == 'nostdin':
            os.close(0)
        elif v['stdout'] == 'closed':
            os.close(1)
        elif v['stdout'] == 'stderr closed':
            os.close(2)
        if v['nofile']:
            resource.setrlimit(resource.RLIMIT_NOFILE, (v['nofile'],) * 2)
    path = os.path.join(cwd, '.out')
    kw = {}
    master = None
    if v['stdout'] == 'pty':
        master, slave = pty.openpty()
        import termios
        termios.tcsetwinsize(slave, (9, 30))
        a = termios.tcgetattr(slave)
        a[1] &= ~termios.OPOST
        termios.tcsetattr(slave, termios.TCSANOW, a)
        kw['stdout'] = slave
    elif v['stdout'] == 'file':
        kw['stdout'] = open(path, 'wb')
    elif v['stdout'] == 'null':
        kw['stdout'] = subprocess.DEVNULL
    else:
        kw['stdout'] = subprocess.PIPE
    p = subprocess.Popen([core.PY] + v['flags'] + args, env=v['env'], cwd=cwd, preexec_fn=before,
                         stdin=None if v['stdout'] == 'nostdin' else subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL, **kw)
    out = None
    if master is not None:
        os.close(slave)
        out = b''
        while True:
            try:
                x = os.read(master, 65536)
            except OSError:
                break
            if not x:
                break
            out += x
        os.close(master)
        p.wait(timeout)
    elif v['stdout'] == 'file':
        p.wait(timeout)
        kw['stdout'].close()
        out = ops.read(path)
        os.unlink(path)
    else:
        out = p.communicate(timeout=timeout)[0]
        if v['stdout'] in ('closed', 'null'):
            out = None
    return p.returncode, out


def library(ctx, v, seeds, name):
    d = ctx.path(name)
    os.mkdir(d)
    spec = {'ops': seeds, 'dir': d, 'inside': v['inside'], 'stale_cwd': v['cwd'] == 'gone'}
    p, out = os.path.join(d, 'spec'), os.path.join(d, 'out')
    ops.write(p, json.dumps(spec).encode())
    rc, _ = start(v, [os.path.join(core.VERIF, 'mon', 'envchild.py'), core.REPO, core.VERIF, p, out],
                  d if v['cwd'] != '/' else '/')
    if not os.path.exists(out):
        err = ops.read(out + '.err').decode() if os.path.exists(out + '.err') else ''
        ctx.fail('operations could not be run', exit=rc, error=err[-1500:])
    with open(out, 'rb') as fp:
        return pickle.load(fp)


# --------------------------------------------------------------- commands

def command(ctx):
    """(args, files, ascii): files name -> bytes."""
    rng = ctx.rng
    base = rng.choice(['f', 'f', 'data.bin', 'two words', 'f\u00e4\u20ac', 'x\udcff'])
    data = gen.data(rng, rng.choice([0, 1, 100, 3000]))
    meta = rng.choice([{'name': 'Gr\u00f6\u00dfe \u2192 \u00b5m'}, {'\u00e9': ['\U0001f600', 1.5]}, {'a': 1},
                       {'m': '\u00ff\u00fe'}, gen.metadata(rng), ['\u3042' * 30]])
    raw = json.dumps(meta, ensure_ascii=rng.random() < 0.3)
    try:
        raw = raw.encode()
    except UnicodeEncodeError:
        raw = json.dumps(meta).encode()
    files = {'m.json': raw}
    img, content = opkit.image(rng, offsets=True, app=20,
                               meta=rng.choice([
        None, {'k': '\u00fc\u00f6'}, gen.metadata(rng),
        {'some name': list(range(rng.choice([5, 40]))), 'other': {'long text': 'word ' * 12}}]))
    k = rng.choice([0, 0, 2, 3, 3, 4, 5, 5])
    level = rng.choice([[], [], ['-v'], ['-d']])
    if k <= 1:
        files[base] = data
        args = ['compress'] + rng.choice([[], ['-m', 'm.json'], ['-m', 'm.json']]) + \
            rng.choice([[], ['-k', 'md5'], ['-o'], ['-z', '64B']]) + [base]
    elif k == 2:
        files[base + '.blp'] = img
        args = ['decompress', base + '.blp']
    elif k == 3:
        files[base + '.blp'] = img
        args = ['info', base + '.blp']
    elif k == 4:
        files[base + '.blp'] = img
        files['new'] = data
        args = ['append'] + rng.choice([[], ['-m', 'm.json']]) + [base + '.blp', 'new']
    else:
        files[base] = data
        files[base + '.blp'] = opkit.damage(rng, img)
        args = rng.choice([['compress', base], ['decompress', base + '.blp'],
                           ['compress', 'absent'], ['decompress', base], ['info', base],
                           ['compress', '-z', '3X', '-f', base], ['decompress', '-f', base + '.blp'],
                           ['append', base + '.blp', 'absent'], ['compress', '-m', 'no', '-f', base]])
    return level + ['-n', '1'] + args, files, base.isascii()


def contents(d):
    return dict((os.fsencode(n), (ops.read(os.path.join(d, n)),
                                  os.lstat(os.path.join(d, n)).st_mode))
                for n in os.listdir(d))


def plain(s):
    return re.sub('0x[0-9a-f]{6,}', '0x', s.encode('ascii', 'backslashreplace').decode())


def one_command(ctx, v, n):
    args, files, ascii_ = command(ctx)
    dirs = []
    for k in 'pv':
        d = ctx.path('%s%d' % (k, n))
        os.mkdir(d)
        for f, b in files.items():
            ops.write(os.path.join(d, f), b)
            os.chmod(os.path.join(d, f), 0o640)
        dirs.append(d)
    a = cli.forked(args, dirs[0])
    want = contents(dirs[0])
    script = os.path.join(core.REPO, 'blpk')
    cwd, cargs = dirs[1], args
    if v['cwd'] == 'shadow':
        # modules the library uses, by their names
        for m in ('json', 'blosc', 'bloscpack', 'log', 'numpy', 'zlib'):
            ops.write(os.path.join(cwd, m + '.py'), b'raise SystemExit(7)\n')
    rc, out = start(v, [script] + cargs, cwd)
    if v['cwd'] == 'shadow':
        for m in ('json', 'blosc', 'bloscpack', 'log', 'numpy', 'zlib'):
            os.unlink(os.path.join(cwd, m + '.py'))
    got = contents(cwd)
    what = 'blpk %s' % ' '.join(plain(x) for x in args)
    ctx.note['commands'].append(what)
    ctx.event('commands')
    ctx.event('evaluations')
    ctx.check(rc == a.rc, '%s exits with another status' % what, got=rc, plain=a, around=v)
    ctx.check(set(got) == set(want), '%s leaves other files' % what, got=sorted(got),
              plain=sorted(want), around=v)
    for f in want:
        ctx.check(got[f][0] == want[f][0], '%s leaves another content of %r' % (what, f),
                  around=v)
        mode = 0o100640 if os.fsdecode(f) in files else 0o100666 & ~v['umask']
        ctx.check(got[f][1] == mode, '%s leaves mode %o instead of %o of %r' %
                  (what, got[f][1], mode, f), around=v)
    if v['stdout'] == 'stderr closed' and rc == 2:
        out = None      # argparse turns to standard output then
    if out is not None and ascii_:
        enc = v['env'].get('PYTHONIOENCODING') or 'utf-8'
        if '-E' in v['flags'] or '-I' in v['flags']:
            enc = 'utf-8'
        try:
            text = codecs.decode(out, enc)
        except UnicodeDecodeError:
            ctx.fail('%s prints what its encoding does not have' % what, got=out[-500:], around=v)
        ctx.event('outputs')
        x, y = plain(text).splitlines(), plain(a.out).splitlines()
        ctx.check(x == y, '%s prints something else' % what,
                  got=[l for l in x if l not in y][:5], plain=[l for l in y if l not in x][:5],
                  around=v)


def case(ctx, kind, arg):
    rng = ctx.rng
    v = surroundings(rng)
    ctx.note = {'around': {k: x for k, x in v.items() if k != 'env'}, 'env': {
        k: x for k, x in v['env'].items() if PLAIN.get(k) != x}, 'commands': []}
    seeds = [rng.randrange(2 ** 40) for _ in range(40)]
    p = {'env': dict(PLAIN), 'flags': [], 'inside': [], 'umask': 0o022, 'cwd': None,
         'stdout': 'null', 'nofile': None}
    want = library(ctx, p, seeds, 'plain')
    got = library(ctx, v, seeds, 'other')
    for (name, a, m), (_, b, m2) in zip(want, got):
        ctx.event('operations')
        ctx.event('evaluations')
        ctx.check(a == b, '%s has another outcome' % name, plain=a, got=b, around=ctx.note)
        ctx.check(m == m2 and not any('instead' in x for _, x in m2),
                  '%s leaves other files or modes' % name, plain=m, got=m2, around=ctx.note)
        if a[0] == 'exc':
            ctx.event('failing_operations')
    for n in range(6):
        one_command(ctx, v, n)
    for k in v['kinds']:
        ctx.event('varied_' + k)
    ctx.nontrivial(repr(v), seeds)
    ctx.sample(ctx.note)
