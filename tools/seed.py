#!/usr/bin/env python3
"""Development aid: makes planted bugs (/verif/seeded/ID) from definitions, and confirms each in a scratch copy of /repo.
seed.py FILE [id...]: FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(path, old, new)], demo={name: text})]."""
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/seed/repo'
BASE = '2fcd16b'
DEMO_SH = '''#!/bin/bash
# exit 0: as it should be; otherwise the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
inc="-I$PWD/src/include -I$PWD/_build/include/falcon"
g++ -std=gnu++17 -g -w %(flags)s -pthread $inc "$here/demo.cpp" %(srcs)s -o "$t/demo" || exit 4
cd "$t" && timeout %(secs)d ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def original_lines(path):
    """Lines of the file the patch may change: those of the base commit."""
    o = sh(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', path]).stdout.splitlines()
    return [l.startswith('^') or l.split()[0].lstrip('^').startswith(BASE) for l in o]


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in seeds:
        if only and s['id'] not in only:
            continue
        shutil.rmtree('/tmp/seed', ignore_errors=True)
        os.makedirs('/tmp/seed')
        sh('cp -a /repo %s' % D)
        bad = None
        for path, old, new in s['edits']:
            p = os.path.join(D, path)
            t = open(p).read()
            if t.count(old) != 1:
                bad = 'text found %d times in %s' % (t.count(old), path)
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'NOT APPLICABLE', bad); continue
        diff = sh(['git', '-C', D, 'diff']).stdout
        touched = False
        for path in set(e[0] for e in s['edits']):
            orig = original_lines(path)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(['git', '-C', D, 'diff', '-U0', '--', path]).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if any(orig[a - 1:a - 1 + n]):
                    touched = True
        out = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        for n, text in s['demo'].items():
            open(os.path.join(out, n), 'w').write(text)
        if 'demo.sh' not in s['demo']:
            open(out + '/demo.sh', 'w').write(DEMO_SH % {'flags': s.get('flags', ''), 'srcs': ' '.join('"$PWD/src/%s"' % x for x in s.get('srcs', [])), 'secs': s.get('secs', 60)})
        os.chmod(out + '/demo.sh', 0o755)
        clean = sh(['bash', out + '/demo.sh'], cwd='/repo')
        # the scratch copy is built in place: its build tree names /repo, so make it anew
        shutil.rmtree(D + '/_build', ignore_errors=True)
        b = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -Wno-dev --log-level=WARNING && ninja -C %s/_build' % (D, D, D),
               env=dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++'))
        t = sh('cd %s/_build && ctest -E "^logger.fut" 2>&1 | tail -15' % D) if b.returncode == 0 else None
        demo = sh(['bash', out + '/demo.sh'], cwd=D) if b.returncode == 0 else None
        ok = touched and clean.returncode == 0 and b.returncode == 0 and '100% tests passed' in t.stdout and demo.returncode != 0
        print('%-24s %s original=%s clean=%s build=%s tests=%s demo=%s %s' % (s['id'], 'GOOD' if ok else 'BAD', touched, clean.returncode, b.returncode,
              t and '100% tests passed' in t.stdout, demo and demo.returncode, (demo.stdout + demo.stderr)[-200:].replace('\n', ' ') if demo else b.stdout[-500:]))
        if clean.returncode:
            print('   clean:', (clean.stdout + clean.stderr)[-600:])
        if t and '100% tests passed' not in t.stdout:
            print(t.stdout)
        sys.stdout.flush()
    shutil.rmtree('/tmp/seed', ignore_errors=True)


main()
