#!/usr/bin/env python3
"""Development aid: applies one edit after the other to a scratch copy of /repo and runs checks on it.
mutate.py FILE [name...]: FILE defines MUTANTS = [(name, path, old, new, [properties])]."""
import os, shutil, subprocess, sys, time, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ms = runpy.run_path(sys.argv[1])['MUTANTS']
only = sys.argv[2:]
d = '/tmp/mutants/repo'
shutil.rmtree('/tmp/mutants', ignore_errors=True)
os.makedirs('/tmp/mutants')
shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'build*'))
for name, path, old, new, props in ms:
    if only and name not in only:
        continue
    p = os.path.join(d, path)
    s = open(p).read()
    if s.count(old) < 1:
        print('%-28s NOT APPLICABLE' % name); continue
    open(p, 'w').write(s.replace(old, new, 1))
    for pid in props:
        t = time.time()
        r = subprocess.run(['python3', V + '/lib/check.py', pid], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_TIER='quick'), capture_output=True, text=True)
        line = [l for l in r.stdout.splitlines() if l.startswith('violation of') or l.startswith('ERROR')]
        print('%-28s %-4s rc=%d %.0fs %s' % (name, pid, r.returncode, time.time() - t, (line[0] if line else r.stdout[-300:] if r.returncode == 2 else '')[:260]))
        sys.stdout.flush()
    open(p, 'w').write(s)
shutil.rmtree('/tmp/mutants', ignore_errors=True)
