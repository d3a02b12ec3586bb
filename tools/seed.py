#!/usr/bin/env python3
"""seed.py DEFS.py [id ...]: build and confirm planted bugs.  DEFS.py holds SEEDS = [dict(id, property, edits=[(file, old, new[, n])], demo, needs, breaks)].
Each is tried in a scratch copy: it must build, pass the stable tests, change original lines only; the demo must pass without and fail with it."""
import sys, os, shutil, subprocess, tempfile, json, re
from concurrent.futures import ThreadPoolExecutor
BASE = '58b9031'
SB = '''#!/bin/bash
export PYTHONINTMAXSTRDIGITS=0 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 280 /opt/venv/bin/python -W ignore "$D/demo.py"
'''
HEAD = '''import sys, os, tempfile, shutil
sys.path.insert(0, os.getcwd())
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
def vp(name, d):
    s = open('/opt/vp/' + name).read().replace('/repo', d).replace('unset PYTHONPATH', 'export PYTHONPATH=' + d)
    p = d + '.' + name
    open(p, 'w').write(s)
    return p
def one(s):
    top = tempfile.mkdtemp(prefix='seed')
    d = top + '/repo'
    try:
        shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        out = '/verif/seeded/' + s['id']
        for e in s['edits']:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 1
            t = open(d + '/' + f, newline='').read()
            nl = '\r\n' in t
            if nl:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            i = -1
            for _ in range(n):
                i = t.find(old, i + 1)
                if i < 0:
                    return s['id'] + ': TEXT NOT FOUND in ' + f
            t = t[:i] + new + t[i + len(old):]
            open(d + '/' + f, 'w', newline='').write(t)
        diff = sh('git diff', d).stdout
        # original lines only
        bad = []
        for f in {e[0] for e in s['edits']}:
            bl = sh('git blame -s -l HEAD -- %s' % f, d).stdout.splitlines()
            cur = None
            for l in sh('git diff -U0 -- %s' % f, d).stdout.splitlines():
                m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
                if m:
                    a, k = int(m.group(1)), int(m.group(2) or 1)
                    for j in range(a, a + k):
                        c = bl[j - 1].split()[0].lstrip('^')
                        if sh('git merge-base --is-ancestor %s %s' % (c, BASE), d).returncode:
                            bad.append('%s:%d' % (f, j))
                    if k == 0 and l:
                        bad.append('pure insertion at %s:%d' % (f, a))
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w', newline='').write(diff)
        open(out + '/demo.sh', 'w').write(SB)
        os.chmod(out + '/demo.sh', 0o755)
        import textwrap
        open(out + '/demo.py', 'w').write(HEAD + textwrap.dedent(s['demo']).lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        b = sh('bash ' + vp('build.sh', d), d)
        t = sh('bash %s %s' % (vp('test.sh', d), d + '.json'), d)
        o = json.load(open(d + '.json'))
        miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in o['passed']]
        dm = sh('bash %s/demo.sh' % out, d)
        dc = sh('bash %s/demo.sh' % out, '/repo')
        c = sh('python3 /verif/run.py ' + s['property'], d, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=top))
        ok = b.returncode == 0 and not miss and dm.returncode != 0 and dc.returncode == 0 and not [x for x in bad if not x.startswith('pure')]
        r = '%-28s %s %s build %d, tests missing %d, demo clean %d patched %d, %s: rc=%d %s' % (
            s['id'], 'OK ' if ok else 'BAD', 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in c.stdout else 'missed', b.returncode, len(miss), dc.returncode, dm.returncode, s['property'], c.returncode, ('NOT ORIGINAL ' + str(bad)) if bad else '')
        if dc.returncode or not dm.returncode:
            r += '\n   clean: %s\n   patched: %s' % ((dc.stdout + dc.stderr)[-400:], (dm.stdout + dm.stderr)[-400:])
        if c.returncode != 1:
            r += '\n   check: ' + '\n          '.join((c.stdout + c.stderr).splitlines()[-4:])[:600]
        return r
    finally:
        shutil.rmtree(top)
ns = {}
exec(open(sys.argv[1]).read(), ns)
todo = [s for s in ns['SEEDS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
