#!/usr/bin/env python3
"""Verify planted bugs (/verif/seeded) in isolated copies of /repo.

usage: plant.py [-j N] [--no-tests] [--all-checks] [id ...]

For each id: copy /repo, apply the patch, build it, run the stable tests, run
the demo on the unchanged and on the changed tree, then run the property's
quick check against the copy.  Every build, test and demo runs in its own
mount namespace in which the copy is seen as /repo.  Prints one line per id.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, time

S = '/verif/seeded'
W = '/tmp/pl'
PY = '/opt/venv/bin/python'


def ns(copy, cmd, timeout=900):
    return subprocess.run(['unshare', '-Urm', 'sh', '-c',
                           'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def one(pid, tests, checks):
    d = '%s/%s' % (S, pid)
    meta = json.load(open(d + '/meta.json'))
    copy, out = '%s/%s' % (W, pid), '%s/%s.json' % (W, pid)
    shutil.rmtree(copy, True)
    subprocess.check_call(['cp', '-a', os.environ.get('SRC', '/repo'), copy])
    r = {'id': pid, 'property': meta['property']}
    try:
        c = ns(copy, 'bash %s/demo.sh' % d)
        r['clean'] = c.returncode
        if c.returncode:
            r['clean_out'] = c.stdout[-500:]
        a = subprocess.run(['git', '-C', copy, 'apply', d + '/patch.diff'],
                           stderr=subprocess.PIPE, text=True)
        if a.returncode:
            r['apply'] = a.stderr
            return r
        b = ns(copy, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d)
        r['patched'] = b.returncode
        r['demo_out'] = b.stdout.strip()[-160:]
        if tests:
            ns(copy, 'bash /opt/vp/test.sh %s' % out)
            t = json.load(open(out))
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = base.get('passing') or base.get('stable') or base.get('passed') or []
            missing = [x for x in stable if x not in set(t['passed'])]
            r['tests'] = missing[:3] if stable else len(t['passed'])
        for prop in checks or [meta['property']]:
            t0 = time.time()
            e = subprocess.run([PY, '/verif/check.py', prop], cwd='/verif',
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, BPV_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in e.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
            r.setdefault('checks', {})[prop] = \
                '%s %.0fs' % ('CAUGHT' if e.returncode == 1 and v else 'missed(%d)' % e.returncode,
                              time.time() - t0)
            if e.returncode not in (0, 1):
                r['err'] = e.stdout[-600:]
    finally:
        shutil.rmtree(copy, True)
    return r


def main():
    args = sys.argv[1:]
    j = 4
    if '-j' in args:
        i = args.index('-j')
        j = int(args[i + 1])
        del args[i:i + 2]
    tests = '--no-tests' not in args
    checks = None
    if '--all-checks' in args:
        checks = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(S))
    os.makedirs(W, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: one(i, tests, checks), ids):
            ok = r.get('clean') == 0 and r.get('patched') not in (0, None) and not r.get('tests')
            print('OK ' if ok else 'BAD', json.dumps(r), flush=True)


if __name__ == '__main__':
    main()
