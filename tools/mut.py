#!/usr/bin/env python3
"""mut.py CHECK FILE OLD NEW [n]: run a check on a scratch copy of /repo with the n-th occurrence of OLD replaced (sources only)"""
import warnings; warnings.simplefilter('ignore')
import sys, os, shutil, subprocess, tempfile, glob
ck, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
d = tempfile.mkdtemp(prefix='mut')
for p in glob.glob('/repo/*.py'):
    shutil.copy(p, d)
p = os.path.join(d, f)
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
i = -1
for _ in range(n):
    i = s.find(old, i + 1)
    if i < 0:
        print('NOT FOUND'); sys.exit(3)
s = s[:i] + new + s[i + len(old):]
open(p, 'w').write(s)
compile(s, p, 'exec')
env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
for c in ck.split(','):
    r = subprocess.run([sys.executable, '/verif/run.py', c], env=env, capture_output=True, text=True)
    o = (r.stdout + r.stderr).splitlines()
    vio = [x.strip()[10:100] for x in o if x.startswith('  violated: ')]
    und = [x for x in o if x.startswith('undecided')]
    print('%s rc=%d' % (c, r.returncode), 'first: %s (%d violated, %d undecided)' % (vio[:1], len(vio), len(und)), '' if r.returncode < 2 else o[-1:])
    if os.environ.get('N'):
        print('\n'.join(x[:300] for x in o[:int(os.environ['N'])]))
shutil.rmtree(d)
