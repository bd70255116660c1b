#!/usr/bin/env python3
"""Nothing has to be built beforehand (every check builds what it needs): parses all the specifications."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
for f in sorted(glob.glob(V + '/spec/*.tla')):
    r = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', f], capture_output=True, text=True, cwd=V + '/spec')
    ok = r.returncode == 0 and 'Semantic errors' not in r.stdout
    print(os.path.basename(f), 'ok' if ok else r.stdout[-2000:])
    bad |= not ok
sys.exit(bad)
