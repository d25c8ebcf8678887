"""List planted bugs that change no line of the original repository (only lines of later commits)."""
import os, re, subprocess, sys
S = '/verif/seeded'
BASE = '6264189'
def blame(f):
    o = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f], capture_output=True, text=True).stdout
    return [l.split()[0].lstrip('^') for l in o.splitlines()]
orig = set(subprocess.run(['git', '-C', '/repo', 'rev-list', BASE], capture_output=True, text=True).stdout.split())
orig = {h[:39] for h in orig}
for d in sorted(os.listdir(S)):
    f = None; n = 0; old = new = 0; near = 0
    for l in open('%s/%s/patch.diff' % (S, d)):
        if l.startswith('--- a/'):
            f = l[6:].strip().split('\t')[0]; b = blame(f)
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if b[ln - 1][:39] in orig: old += 1
            else: new += 1
            ln += 1
        elif l.startswith('+') and not l.startswith('+++'):
            # an insertion between lines of which one is a later one
            near += any(b[k][:39] not in orig for k in (ln - 2, ln - 1) if 0 <= k < len(b))
        elif l.startswith(' '):
            ln += 1
    if not old:
        print(d, 'original lines:', old, 'later lines:', new, 'insertions beside later lines:', near)
