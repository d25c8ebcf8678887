#!/usr/bin/env python3
"""Mutation campaign: which small changes that pass the tests do the checks miss?

usage: mutate.py list                       number of mutants per file
       mutate.py run OUT [-j N] [--every K] [--only FILE] [--checker DIR]

Each mutant is made in a copy of /repo; the tests (without the two slow ones) run first;
the survivors are given to the quick checks, most likely one first, until one
reports.  OUT gets one JSON line per mutant and is appended to (a rerun skips
what it holds).
"""
import ast, concurrent.futures, json, os, shutil, subprocess, sys, threading, time

R = '/repo'
W = '/tmp/mut'
PY = '/opt/venv/bin/python'
FILES = ['abstract_io', 'abstract_objects', 'append', 'args', 'checksums', 'cli',
         'constants', 'defaults', 'file_io', 'headers', 'log', 'memory_io',
         'metacodecs', 'numpy_io', 'pretty', 'serializers']
ORDER = {
    'abstract_io': 'C01 C02 C03 C05 C07 C11 C18 C20 C19 C21 C24 C25 C31 C33',
    'abstract_objects': 'C23 C19 C17 C21 C18 C03 C26 C25 C33',
    'append': 'C08 C09 C12 C10 C16 C15 C21 C20 C19 C24 C17 C04 C26 C28 C30 C31 C33',
    'args': 'C22 C03 C19 C06 C01 C23 C09 C21 C15 C26 C25 C29 C33',
    'checksums': 'C03 C05 C06 C07 C23 C04 C10 C26',
    'cli': 'C15 C16 C17 C21 C22 C24 C11 C09 C20 C29 C31 C33',
    'constants': 'C23 C22 C03 C15 C17 C06 C07 C26',
    'defaults': 'C03 C15 C06 C08 C01 C21',
    'file_io': 'C03 C07 C01 C06 C05 C04 C11 C10 C20 C21 C24 C13 C17 C14 C25 C28 C27 C31 C30 C33',
    'headers': 'C23 C07 C03 C17 C04 C13 C22 C26 C27 C33',
    'log': 'C21 C16 C15 C19 C29 C33',
    'memory_io': 'C01 C03 C05 C20 C02 C19 C25',
    'metacodecs': 'C06 C10 C23 C03 C07 C26 C27',
    'numpy_io': 'C02 C13 C14 C19 C20 C04 C07 C03 C25 C26',
    'pretty': 'C22 C17 C15 C21 C29 C33',
    'serializers': 'C06 C10 C23 C04 C26',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.Div: '*', ast.FloorDiv: '/', ast.BitAnd: '|'}


def logcall(n):
    f = n.func
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'log' \
        and f.attr in ('debug', 'verbose')


def mutants(name):
    """[(line, what, new source)] of a module"""
    src = open('%s/bloscpack/%s.py' % (R, name)).read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.encode().splitlines(True):
        starts.append(starts[-1] + len(l))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def sub(n, text, what):
        a, b = span(n)
        out.append((n.lineno, what, (raw[:a] + text.encode() + raw[b:]).decode()))

    def txt(n):
        a, b = span(n)
        return raw[a:b].decode()

    def walk(n, parent=None):
        if isinstance(n, ast.Call) and logcall(n):
            return
        if isinstance(n, ast.Raise):
            sub(n, 'pass', 'raise dropped: ' + txt(n)[:60])
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call) and not logcall(n.value):
                sub(n, 'pass', 'statement dropped: ' + txt(n)[:60])
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            sub(n, 'pass', 'assignment dropped: ' + txt(n)[:60])
        if isinstance(n, ast.AugAssign):
            sub(n, 'pass', 'update dropped: ' + txt(n)[:60])
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            op = CMP[type(n.ops[0])]
            sub(n, '(%s %s %s)' % (txt(n.left), op, txt(n.comparators[0])), 'comparison: ' + txt(n)[:60])
            if type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
                flip = {ast.Lt: '>=', ast.Gt: '<=', ast.LtE: '>', ast.GtE: '<'}[type(n.ops[0])]
                sub(n, '(%s %s %s)' % (txt(n.left), flip, txt(n.comparators[0])), 'negated: ' + txt(n)[:60])
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) \
                and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            sub(n, '(%s %s %s)' % (txt(n.left), BIN[type(n.op)], txt(n.right)), 'operator: ' + txt(n)[:60])
        if isinstance(n, ast.BoolOp):
            other = ' or ' if isinstance(n.op, ast.And) else ' and '
            sub(n, '(' + other.join(txt(v) for v in n.values) + ')', 'and/or: ' + txt(n)[:60])
            for i in range(len(n.values)):
                rest = [txt(v) for j, v in enumerate(n.values) if j != i]
                sub(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')',
                    'operand dropped: ' + txt(n.values[i])[:60])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, '(%s)' % txt(n.operand), 'not dropped: ' + txt(n)[:60])
        if isinstance(n, (ast.If, ast.IfExp)):
            t = txt(n.test)
            if 'log.LEVEL' not in t:
                sub(n.test, 'True', 'condition true: ' + t[:60])
                sub(n.test, 'False', 'condition false: ' + t[:60])
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            sub(n.value, 'None', 'returns None: ' + txt(n.value)[:60])
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ('help', 'metavar', 'title', 'version', 'reason', 'formatter_class', 'width', 'description', 'epilog'):
                    continue
                a, b = span(n)
                kw = span(k)
                s = kw[0]
                while raw[s - 1:s] in (b' ', b'\n'):
                    s -= 1
                if raw[s - 1:s] == b',':
                    out.append((k.lineno, 'keyword dropped: ' + txt(k)[:60], (raw[:s - 1] + raw[kw[1]:]).decode()))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            sub(n, str(n.value + 1), 'constant +1: %s' % n.value)
            if n.value:
                sub(n, str(n.value - 1), 'constant -1: %s' % n.value)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            sub(n, str(not n.value), 'constant flipped')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            sub(n.type, 'ZeroDivisionError', 'handler dropped: ' + txt(n.type))
        for c in ast.iter_child_nodes(n):
            walk(c, n)

    walk(tree)
    good, seen = [], set()
    for l, what, s in out:
        try:
            compile(s, name, 'exec')
        except SyntaxError:
            continue
        if s == src or s in seen:
            continue
        seen.add(s)
        good.append((l, what, s))
    return good


def ns(copy, cmd, timeout):
    return subprocess.run(['unshare', '-Urm', 'sh', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(copy):
    try:
        t = ns(copy, PY + ' -m pytest -q -x -p no:cacheprovider --timeout=60 test '
               '--deselect test/test_file_io.py::test_pack_unpack_extreme '
               '--deselect test/test_file_io.py::test_pack_unpack_hard', 150)
    except subprocess.TimeoutExpired:
        return 'tests timeout'
    if t.returncode:
        return 'tests'
    for f in ('append', 'blosc_codec', 'checksum', 'chunk_size', 'force', 'no_offsets', 'template', 'threads', 'zero_length_file'):
        t = ns(copy, 'PATH=/opt/venv/bin:$PATH /opt/venv/bin/cram test_cmdline/test_%s.cram' % f, 200)
        if t.returncode:
            return 'cram ' + f
    return None


def one(job):
    name, line, what, src, checker, idx = job
    r = {'file': name, 'line': line, 'what': what, 'n': idx}
    copy = '%s/%s-%d' % (W, name, idx)
    shutil.rmtree(copy, True)
    subprocess.check_call(['cp', '-a', R, copy])
    try:
        p = '%s/bloscpack/%s.py' % (copy, name)
        open(p, 'w').write(src)
        k = tests(copy)
        if k:
            r['by'] = k
            return r
        for prop in ORDER[name].split():
            t0 = time.time()
            e = subprocess.run([PY, checker + '/check.py', prop, '--jobs', '4'], cwd=checker, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, BPV_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick'))
            if e.returncode == 1:
                r['by'] = prop
                return r
            if e.returncode:
                r.setdefault('odd', []).append((prop, e.returncode, e.stdout[-300:]))
        r['by'] = None
        return r
    finally:
        shutil.rmtree(copy, True)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    if a[0] == 'list':
        for f in FILES:
            print(f, len(mutants(f)))
        return
    out, every, only = a[1], int(opt('--every', 1)), opt('--only', None)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l)
            done.add((j['file'], j['n']))
    os.makedirs(W, exist_ok=True)
    jobs = []
    for f in FILES:
        if only and f not in only.split(','):
            continue
        for i, (l, w, s) in enumerate(mutants(f)):
            if i % every == 0 and (f, i) not in done:
                jobs.append((f, l, w, s, opt('--checker', '/verif'), i))
    print(len(jobs), 'mutants')
    lock = threading.Lock()
    with concurrent.futures.ThreadPoolExecutor(int(opt('-j', 4))) as ex, open(out, 'a') as fp:
        for r in ex.map(one, jobs):
            with lock:
                fp.write(json.dumps(r) + '\n')
                fp.flush()


if __name__ == '__main__':
    main()
