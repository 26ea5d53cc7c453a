"""quick mutation runs: mut.py FILE.py [names...]   FILE defines M = [(name, checks, [(file, old, new), ...])]
each mutant is applied to a scratch copy of /repo's working tree and the checks are run on it"""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))     # run from a copy of /verif to keep editing meanwhile
R = os.environ.get('MUT_REPO', '/repo')
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
ms = [m for m in ns['M'] if not want or m[0] in want]
W = int(os.environ.get('MUT_W', '4'))
B0 = int(os.environ.get('MUT_B', '0'))
import queue
slots = queue.Queue()
for i in range(B0, B0 + W):
    slots.put(i)


def run(m):
    name, checks, edits = m
    i = slots.get()
    d, b, ev = '/tmp/mw%d' % i, '/tmp/mb%d' % i, '/tmp/me%d' % i
    try:
        if not os.path.isdir(d):
            subprocess.run(['git', 'clone', '-q', R, d], check=True)
        subprocess.run(['git', '-C', d, 'fetch', '-q', R], check=True)
        subprocess.run(['git', '-C', d, 'reset', '-q', '--hard', subprocess.check_output(['git', '-C', R, 'rev-parse', 'HEAD'], text=True).strip()], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'EDIT NOT FOUND in %s: %r' % (f, old[:60])
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=b, VERIF_EVIDENCE=ev)
        r = subprocess.run(['bash', os.path.join(V, 'extract.sh'), d], env=env, capture_output=True, text=True)
        if r.returncode:
            return name, 'DOES NOT COMPILE ' + '\n'.join(x for x in (r.stdout + r.stderr).splitlines() if 'error' in x)[:400]
        out = []
        env['VERIF_JUST_EXTRACTED'] = '1'
        for c in checks:
            r = subprocess.run(['python3', os.path.join(V, 'an/check.py'), c], env=env, capture_output=True, text=True)
            ls = [x for x in r.stdout.splitlines() if x.startswith('  -')]
            out.append('%s rc=%d %s' % (c, r.returncode, ('%d: ' % len(ls) + ls[0][:150]) if ls else (r.stderr[-300:] if r.returncode not in (0, 1) else '')))
        return name, ' | '.join(out)
    finally:
        slots.put(i)


with ThreadPoolExecutor(W) as ex:
    for n, r in ex.map(run, ms):
        print(n, '=>', r, flush=True)
