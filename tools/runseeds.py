#!/usr/bin/env python3
"""Development aid: runs the check of its property on each planted bug, applied to a scratch copy of /repo.
runseeds.py [-t thorough] [id...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = 'quick'
if args[:1] == ['-t']:
    tier = args[1]; args = args[2:]
D = '/tmp/runseeds/repo'
for s in args or sorted(os.listdir(V + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    shutil.rmtree('/tmp/runseeds', ignore_errors=True)
    os.makedirs('/tmp/runseeds')
    shutil.copytree('/repo', D, ignore=shutil.ignore_patterns('.git', '_build'))
    r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + D, '%s/seeded/%s/patch.diff' % (V, s)], cwd='/tmp', capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(['patch', '-p1', '-s', '-i', '%s/seeded/%s/patch.diff' % (V, s)], cwd=D, capture_output=True, text=True)
    if r.returncode:
        print('%-28s patch does not apply: %s' % (s, r.stderr)); continue
    t = time.time()
    r = subprocess.run(['python3', V + '/lib/check.py', meta['property'], tier], cwd=V, env=dict(os.environ, VERIF_REPO=D, VERIF_TIER=tier), capture_output=True, text=True)
    line = [l for l in r.stdout.splitlines() if l.startswith('violation of') or l.startswith('ERROR')]
    print('%-28s %s %-6s rc=%d %.0fs %s' % (s, meta['property'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout else 'MISSED', r.returncode, time.time() - t, (line[0] if line else r.stdout[-200:])[:200]))
    sys.stdout.flush()
shutil.rmtree('/tmp/runseeds', ignore_errors=True)
