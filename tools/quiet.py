#!/usr/bin/env python3
"""Development aid: edits which keep the behaviour, applied to a scratch copy of /repo; the checks named with each have to stay quiet.
quiet.py FILE [names]   FILE defines REFACTORS: list of (name, [property ids], [(file, old, new), ...])"""
import os, shutil, subprocess, sys, time, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = runpy.run_path(sys.argv[1])['REFACTORS']
want = set(sys.argv[2:])
bad = 0
for name, props, edits in R:
    if want and name not in want:
        continue
    D = '/tmp/quiet-%s-%d/repo' % (name, os.getpid())
    shutil.rmtree(os.path.dirname(D), ignore_errors=True)
    shutil.copytree('/repo', D, ignore=shutil.ignore_patterns('.git', '_build', 'build*'))
    for f, old, new in edits:
        p = os.path.join(D, f)
        s = open(p).read()
        if old not in s:
            sys.exit('%s: %s does not contain %r' % (name, f, old))
        open(p, 'w').write(s.replace(old, new))
    for pid in props:
        t = time.time()
        try:
            r = subprocess.run(['python3', V + '/lib/check.py', pid], cwd=V, env=dict(os.environ, VERIF_REPO=D, VERIF_TIER='quick'), capture_output=True, text=True, timeout=900)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', ''
        quiet = rc == 0 and 'VIOLATION' not in out
        bad += not quiet
        print('%-8s %4.0fs %s %s %s' % ('quiet' if quiet else 'ALARM' if rc == 1 else 'NOANSWER', time.time() - t, name, pid, '' if quiet else out[-700:]))
        sys.stdout.flush()
    shutil.rmtree(os.path.dirname(D), ignore_errors=True)
sys.exit(bad > 0)
