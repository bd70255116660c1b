#!/usr/bin/env python3
"""Development aid: small systematic changes to the sources of a scratch copy of /repo, each given to the checks of that part, to see which ones survive.
automut.py GROUP N [seed]   (run it from a copy of /verif to keep working on this one)"""
import os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = {
    'stack': (['src/include/falcon/engine/pagedstack.h', 'src/include/falcon/engine/distribute.h'], ['P01', 'P02', 'P04', 'P05', 'P06', 'P03', 'P07', 'P08']),
    'futex': (['src/include/falcon/futex.h', 'src/engine/futex.cpp'], ['X02', 'X03', 'X01']),
    'atomic': (['src/include/falcon/atomic_gcc.h'], ['X04', 'X01']),
    'single': (['src/include/falcon/singleton.h'], ['S01']),
    'log': (['src/engine/logsystem.cpp', 'src/include/falcon/logsystem.h'], ['L02', 'L01', 'L04', 'L03', 'L05', 'L06']),
    'stream': (['src/engine/logstream.cpp', 'src/include/falcon/logstream.h'], ['L07', 'L06']),
    'logger': (['src/engine/logger.cpp', 'src/include/falcon/logger.h', 'src/include/falcon/logproxy.h'], ['G01', 'G03', 'G02']),
    'code': (['src/engine/code.cpp', 'src/engine/compiler.cpp', 'src/include/falcon/engine/code.h'], ['V01']),
    'item': (['src/include/falcon/engine/%s.h' % x for x in ('item', 'itemdata', 'handler', 'flathandler', 'deephandler', 'deepflatcopyhandler', 'inthandler', 'floathandler', 'boolhandler', 'nilhandler', 'stringhandler', 'bignumhandler')],
             ['V03', 'V02']),
    'fut': (['src/fut/testcase.cpp', 'src/fut/unittest.cpp', 'src/include/falcon/fut/fut.h', 'src/include/falcon/fut/testcase.h', 'src/include/falcon/fut/unittest.h', 'src/fut/fut_main.cpp', 'src/include/falcon/fut/timelapse.h'], ['U02', 'U03', 'U04', 'U05', 'U01']),
}
SUBST = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\+\+', '--'), (r'--', '++'),
         (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[\w(])', ''), (r'\b0\b', '1'), (r'\b1\b', '0'),
         (r'std::move\((\w+)\)', r'\1'), (r'push_back', 'push_front'), (r'pop_front', 'pop_back'), (r'memory_order_(acquire|release|acq_rel|seq_cst)', 'memory_order_relaxed'), (r'\bif ?\((?!.*constexpr)', 'if(true || '),
         (r'\bif ?\((?!.*constexpr)', 'if(false && '), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'rbegin', 'begin'), (r'\.begin\(\)', '.end()'), (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'), (r'notify_all', 'notify_one'),
         (r'break;', ';'), (r'const std::string& (?=\w+ ?=)', 'const std::string '), (r'\breturn (?=[^;]*\w)', 'return !')]


def code_lines(text):
    out, inc = [], False
    for n, l in enumerate(text.split('\n')):
        s = l.strip()
        if inc or s.startswith('/*'):
            inc = '*/' not in s
            continue
        if not s or s.startswith(('//', '*', '#', 'using', 'namespace', 'template', 'class ', 'struct ', 'public', 'private', 'friend', 'typedef', 'enum', 'static_assert')):
            continue
        out.append(n)
    return out


def mutants(path, text):
    L = text.split('\n')
    ok = code_lines(text)
    for n in ok:
        l = L[n].split('//')[0]
        for k, (a, b) in enumerate(SUBST):
            for m in re.finditer(a, l):
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                yield n, L[:n] + [new] + L[n + 1:], '%s -> %s' % (l.strip(), new.strip())
        s = l.strip()
        statement = s.endswith(';') and re.match(r'^(\w|::|\*|&|~|\+\+|--|\()', s) and not re.match(r'^(return\b.|virtual|static|mutable|const|explicit|using|delete;|auto |throw;)', s) and not re.search(r'(override|noexcept|= ?default|= ?delete|const);$', s)
        if statement:
            yield n, L[:n] + [''] + L[n + 1:], 'drop: ' + s
            if n + 1 in ok and L[n + 1].strip().endswith(';') and not L[n + 1].strip().startswith(('return', 'break')):
                yield n, L[:n] + [L[n + 1], L[n]] + L[n + 2:], 'swap: %s / %s' % (s, L[n + 1].strip())


def main():
    group, count = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    files, props = GROUPS[group]
    D = '/tmp/automut-%s/repo' % group
    shutil.rmtree(os.path.dirname(D), ignore_errors=True)
    shutil.copytree('/repo', D, ignore=shutil.ignore_patterns('.git', '_build', 'build*'))
    ms = [(f, n, new, what) for f in files if os.path.exists(os.path.join(D, f)) for n, new, what in mutants(f, open(os.path.join(D, f)).read())]
    rnd.shuffle(ms)
    tally = {}
    for f, n, new, what in ms[:count]:
        p = os.path.join(D, f)
        old = open(p).read()
        open(p, 'w').write('\n'.join(new))
        verdict, t = 'SURVIVES', time.time()
        for pid in props:
            try:
                r = subprocess.run(['python3', V + '/lib/check.py', pid], cwd=V, env=dict(os.environ, VERIF_REPO=D, VERIF_TIER='quick'), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                verdict = 'HANGS ' + pid
                break
            if r.returncode == 1:
                verdict = 'killed ' + pid
                break
            if r.returncode != 0:
                e = [l for l in (r.stdout + r.stderr).splitlines() if 'rror' in l]
                verdict = 'NO ANSWER %s %s' % (pid, (e or [''])[0][:200])
                break
        tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
        print('%-10s %4.0fs %s:%d %s' % (verdict, time.time() - t, os.path.basename(f), n + 1, what[:200]))
        sys.stdout.flush()
        open(p, 'w').write(old)
    print(group, len(ms), tally)
    shutil.rmtree(os.path.dirname(D), ignore_errors=True)


main()
