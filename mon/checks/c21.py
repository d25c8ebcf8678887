"""C21: verbosity never changes results."""
import collections
import contextlib
import io
import os
import re
import shutil
import sys

from .. import cli, gen, opkit, ops, ref

RULE = ('a case runs one operation, or one blpk command, at the three log levels in fresh '
        'directories and compares outcome, files and output; evaluations counts the comparisons '
        'of two levels; distinct by operation, settings and data')
ASSUMPTIONS = ['Blosc with one thread compresses the same data to the same bytes',
               'what argparse itself prints (usage, help) is not the program\'s']
REQUIRE = {'lib': 500, 'cli': 150, 'lines:VERBOSE': 1500, 'lines:DEBUG': 15000, 'failed': 100,
           'succeeded': 600, 'gate': 100, 'cli_lines': 4000, 'odd_names': 50, 'real_process': 5}

LEVELS = ['NORMAL', 'VERBOSE', 'DEBUG']


def plan(tier, seed):
    q = {'quick': 1, 'thorough': 30}[tier]
    return ([('gate', n) for n in range(10 * q)] + [('cli', n) for n in range(170 * q)] +
            [('lib', n) for n in range(1500 * q)])


def case(ctx, kind, arg):
    globals()['case_' + kind](ctx)
    ctx.sample(ctx.note)


def cleanup(ctx):
    from bloscpack import log
    log.LEVEL = log.NORMAL
    log.PREFIX = 'bloscpack.py'


@contextlib.contextmanager
def captured():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o, e


def set_level(ctx, level):
    from bloscpack import log
    if ctx.rng.random() < 0.8:
        log.set_level(level)
    else:
        log.LEVEL = level


def lines_of(ctx, what, text, prefix, level):
    """The lines, without their prefix."""
    if not text:
        return []
    ctx.check(text.endswith('\n'), '%s at level %s left an unfinished line' % (what, level),
              text=text[-200:])
    out = []
    for line in text[:-1].split('\n'):
        ctx.check(line.startswith(prefix + ': '), '%s at level %s printed a line without the '
                  'prefix %r: %r' % (what, level, prefix, line))
        out.append(re.sub(r'0x[0-9a-f]{6,}', '0x', line[len(prefix) + 2:]))
    return out


def contained(ctx, what, less, more, a, b):
    missing = collections.Counter(less) - collections.Counter(more)
    ctx.check(not missing, '%s printed lines at level %s that it does not print at level %s' %
              (what, a, b), missing=list(missing)[:5])


def case_gate(ctx):
    """The levels themselves."""
    from bloscpack import log
    rng = ctx.rng
    prefix = rng.choice(['bloscpack.py', 'blpk', 'x y', '100%', 'é'])
    log.set_prefix(prefix)
    table = {'normal': 0, 'verbose': 1, 'debug': 2}
    for _ in range(12):
        level = rng.choice(LEVELS)
        log.set_level(level)
        fn = rng.choice(list(table))
        text = '\n'.join(rng.choice(['a', 'two words', '100%s', '{x}', 'ü', 'x' * 300])
                         for _ in range(rng.randrange(1, 4)))
        with captured() as (o, e):
            getattr(log, fn)(text)
        want = ''.join('%s: %s\n' % (prefix, t) for t in text.split('\n')) \
            if table[fn] <= LEVELS.index(level) else ''
        ctx.check(o.getvalue() == want and not e.getvalue(),
                  'log.%s at level %s printed %r for %r' % (fn, level, o.getvalue(), text))
        ctx.event('gate')
        ctx.event('evaluations')
        ctx.nontrivial('gate', level, fn, text, prefix)
    before = rng.choice(LEVELS)
    log.set_level(before)
    ctx.must_refuse('unknown log level', log.set_level,
                    rng.choice(['', 'normal', 'LOUD', None, 1, 'DEBUG ']))
    ctx.check(log.LEVEL == before, 'a refused log level changed the level')


def case_lib(ctx):
    from bloscpack import log
    rng = ctx.rng
    op = opkit.make(rng)
    ctx.note.update(op=op.name, specs=op.specs, files=sorted(op.files))
    prefix = 'bloscpack.py'
    if rng.random() < 0.2:
        prefix = rng.choice(['blpk', 'a b'])
        log.set_prefix(prefix)
    order = LEVELS[:]
    rng.shuffle(order)
    res, lines = {}, {}
    for level in order:
        # the same path every time: its length may show in messages
        d = ctx.path('d')
        os.mkdir(d)
        op.prepare(d)
        set_level(ctx, level)
        with captured() as (o, e):
            res[level] = op.outcome(d)
        log.LEVEL = log.NORMAL
        after = dict((n, ops.read(os.path.join(d, n))) for n in sorted(os.listdir(d)))
        res[level] = (res[level], after)
        lines[level] = lines_of(ctx, op.name, o.getvalue(), prefix, level)
        ctx.check(not e.getvalue(), '%s wrote to standard error' % op.name, text=e.getvalue())
        ctx.event('lines:' + level, len(lines[level]))
        shutil.rmtree(d)
    ctx.check(not lines['NORMAL'], '%s printed at the normal level' % op.name,
              text=lines['NORMAL'][:5])
    for a, b in zip(LEVELS, LEVELS[1:]):
        if res[a] != res[b]:
            ctx.fail('%s ends differently at level %s and at level %s' % (op.name, a, b),
                     a=res[a], b=res[b])
        contained(ctx, op.name, lines[a], lines[b], a, b)
        ctx.event('evaluations')
    ok = res['NORMAL'][0][0] == 'ok'
    if ok and op.name in ('pack_file_to_file', 'pack_bytes_to_file', 'append',
                          'unpack_file_from_file', 'pack_bytes_to_bytes'):
        ctx.check(lines['VERBOSE'], '%s says nothing at the verbose level' % op.name)
    if ok and op.name.startswith(('pack', 'unpack')):
        ctx.check(len(lines['DEBUG']) > len(lines['VERBOSE']),
                  '%s says nothing more at the debug level' % op.name)
    ctx.event('succeeded' if ok else 'failed')
    ctx.event('lib')
    ctx.nontrivial(op.name, op.specs, [len(x) for x in op.files.values()])


# ----------------------------------------------------------------- command line

ODD = ['in', 'in', 'in', 'two words', 'new\nline', '100%s', '{0}', 'grün', b'\xff\xfe'.decode(
    'utf-8', 'surrogateescape'), 'tab\tx', "quo'te", 'in.blp']


def case_cli(ctx):
    rng = ctx.rng
    name = rng.choice(ODD)
    chunk = rng.choice([20, 64, 1000])
    data = gen.data(rng, rng.choice([0, 1, chunk, chunk * 3 + 5]))
    img, plain = opkit.image(rng, chunk=chunk, offsets=True, app=rng.choice([3, 3, 0]))
    meta = gen.metadata(rng)
    files = {name: data, name + '2.blp': img, 'meta': ops.dump(meta).encode()
             if hasattr(ops, 'dump') else __import__('json').dumps(meta).encode()}
    x = rng.choice('cccddaai')
    fault = rng.choice([None] * 6 + ['missing', 'existing', 'damaged', 'extension', 'value'])
    g = ['-n', '1']
    if rng.random() < 0.2:
        g.append('-f')
    blp = name + '2.blp'
    if fault == 'damaged':
        files[blp] = opkit.damage(rng, img)
    if fault == 'existing':
        files['out'] = b'old'
        files[name + '.blp'] = b'old'
        files[name + '2'] = b'old'
    if fault == 'missing':
        files.pop(rng.choice([name, blp]))
    out = ['out'] if rng.random() < 0.5 else []
    if x == 'c':
        a = ['c']
        if rng.random() < 0.7:
            a += ['-z', str(chunk) if fault != 'value' else rng.choice(['0', 'x', '3G'])]
        if rng.random() < 0.4:
            a += ['-k', rng.choice(gen.CHECKSUMS)]
        if rng.random() < 0.4:
            a += ['-m', 'meta']
        if rng.random() < 0.3:
            a += ['-o']
        a += ['-c', rng.choice(['lz4', 'blosclz', 'zlib'])] + [name] + out
    elif x == 'd':
        a = ['d', name if fault == 'extension' else blp] + out
        if fault == 'extension' and out:
            a[1:1] = ['-e']
    elif x == 'a':
        a = ['a', name if fault == 'extension' else blp, name]
        if rng.random() < 0.4:
            a[1:1] = ['-m', 'meta']
    else:
        a = ['i', name if fault == 'extension' else blp]
    ctx.note.update(command=a, fault=fault)
    real = rng.random() < 0.08
    order = [('NORMAL', []), ('VERBOSE', [rng.choice(['-v', '--verbose'])]),
             ('DEBUG', [rng.choice(['-d', '--debug'])])]
    rng.shuffle(order)
    res, lines, last = {}, {}, {}
    for level, o in order:
        d = ctx.path('d')
        os.mkdir(d)
        for n, b in files.items():
            ops.write(os.path.join(d, n), b)
        gg = [g, o] if rng.random() < 0.5 else [o, g]
        args = gg[0] + gg[1] + a
        r = cli.real(args, d) if real else cli.forked(args, d)
        after = dict((n, ops.read(os.path.join(d, n))) for n in sorted(os.listdir(d)))
        err = [t for t in r.err.replace(d, '<d>').split('\n') if t and
               not t.startswith(('usage:', ' '))]
        res[level] = (r.rc, after, err[-1:] if r.rc else err)
        what = 'blpk ' + ' '.join(a)
        lines[level] = lines_of(ctx, what, r.out, 'blpk', level)
        ctx.event('cli_lines', len(lines[level]))
        shutil.rmtree(d)
    for p, q in zip(LEVELS, LEVELS[1:]):
        if res[p] != res[q]:
            ctx.fail('blpk %s ends differently at level %s and at level %s' %
                     (' '.join(a), p, q), a=res[p], b=res[q])
        contained(ctx, 'blpk ' + ' '.join(a), lines[p], lines[q], p, q)
        ctx.event('evaluations')
    if res['NORMAL'][0] == 0 and x in 'ca':
        ctx.check(not lines['NORMAL'], 'blpk %s printed at the normal level' % x,
                  text=lines['NORMAL'][:4])
    if res['NORMAL'][0] == 0:
        ctx.check(lines['VERBOSE'] and len(lines['DEBUG']) > len(lines['VERBOSE']),
                  'blpk -v or -d has no effect')
    ctx.event('succeeded' if res['NORMAL'][0] == 0 else 'failed')
    ctx.event('cli')
    ctx.event('odd_names', name != 'in')
    ctx.event('real_process', real)
    ctx.nontrivial('cli', a, fault, len(data))
