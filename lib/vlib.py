"""Shared machinery of the checks: building, running TLC, replaying, reporting."""
import atexit, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check could not be carried out."""


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.level = 'model_checking'
        os.makedirs(BUILD, exist_ok=True)
        self.work = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        atexit.register(shutil.rmtree, self.work, True)
        self.known = load_known()

    @property
    def quick(self):
        return self.tier == 'quick'

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print('[%s %.1fs]' % (self.pid, self.elapsed()), *a)
        sys.stdout.flush()

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def replay_dir(self, tag):
        d = os.path.join(BUILD, 'replays', '%s-%s-%d' % (self.pid, tag, os.getpid()))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def violation(self, what, path):
        """Reports a violation, unless it is a known finding."""
        for k in self.known:
            if k['property'] == self.pid and re.search(k['match'], what):
                line = 'KNOWN-FINDING: property=%s %s' % (self.pid, k['what'])
                if line not in self.notes.setdefault('known_findings', []):
                    self.notes['known_findings'].append(line)
                    print(line)
                return False
        self.violations.append({'what': what, 'replay': path})
        print('violation of %s: %s' % (self.pid, what))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()
        return True

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'implementation_steps_checked': self.steps,
               'samples': self.samples or ['none']}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(self.elapsed(), 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        self.log('states=%d transitions=%d traces=%d steps=%d violations=%d' % (
            self.states, self.transitions, self.traces, self.steps, len(self.violations)))
        return 1 if self.violations else 0


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)$', line.strip())
            if m:
                res.append({'property': m.group(1), 'match': m.group(2), 'what': m.group(3)})
    return res


# --------------------------------------------------------------------------- processes

def run(cmd, timeout, cwd=None, env=None, out=None, stdin=None):
    """Runs a command in a process group of its own. Returns (rc, output); rc None: timed out."""
    e = dict(os.environ)
    if env:
        e.update(env)
    f = open(out, 'wb') if out else None
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=stdin or subprocess.DEVNULL,
                         stdout=f or subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        rc = None
    if f:
        f.close()
        return rc, ''
    return rc, (o or b'').decode('utf-8', 'replace')


def parallel(jobs, n=NCPU):
    """Calls each of the functions, n at a time; the first exception is raised at the end."""
    with ThreadPoolExecutor(max_workers=n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


# --------------------------------------------------------------------------- building

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    res = []
    for r, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds[:] = [d for d in ds if d != 'test']
        for f in fs:
            if re.search(r'\.(h|hpp|cpp|c\+\+|in)$', f):
                res.append(os.path.join(r, f))
    return res


def config_header():
    """Directory with falcon/config.h, made from the template as the build does."""
    src = open(os.path.join(REPO, 'src/include/falcon/config.h.in')).read()
    vals = {'FALCON_VERSION_ID': '2.0', 'FALCON_VERSION_NAME': 'verif', 'FALCON_VERSION_SPEC': '2.0',
            'FALCON_HOST_SYSTEM': 'UNIX', 'FALCON_LITTLE_ENDIAN': '1', 'CMAKE_INSTALL_PREFIX': '/usr/local'}
    src = re.sub(r'#cmakedefine\s+FALCON_SYSTEM_UNIX', '#define FALCON_SYSTEM_UNIX', src)
    src = re.sub(r'#cmakedefine\s+(\w+)', r'/* #undef \1 */', src)
    src = re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), '2'), src)
    d = os.path.join(BUILD, 'config-' + hashlib.sha256(src.encode()).hexdigest()[:12])
    os.makedirs(os.path.join(d, 'falcon'), exist_ok=True)
    p = os.path.join(d, 'falcon', 'config.h')
    if not os.path.exists(p):
        tmp = '%s.%d-%d' % (p, os.getpid(), threading.get_ident())
        with open(tmp, 'w') as f:
            f.write(src)
        os.replace(tmp, p)
    return d


KNOWN = {'code', 'compiler', 'futex', 'handlerfactory', 'logger', 'logstream', 'logsystem'}


def engine_sources(names):
    """The sources with those names, and any that were not there when this was written (the build takes *.cpp)."""
    d = os.path.join(REPO, 'src/engine')
    stems = {os.path.basename(p)[:-4] for p in glob.glob(d + '/*.cpp')}
    return [os.path.join(d, s + '.cpp') for s in sorted((stems & set(names)) | (stems - KNOWN))]


def fut_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src/fut/*.cpp')) + [os.path.join(REPO, 'src/fut/marktime-unix.c++')])


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98'}


def build(objs, link=None, libs=()):
    """Compiles. objs: list of (name, source, flags); link: None, or list of (exe, [names]).
    Results are cached under a hash of everything that goes in. Returns dict name -> path."""
    key0 = tree_hash(repo_sources() + [p for p in glob.glob(HARNESS + '/**/*', recursive=True) if os.path.isfile(p)])
    inc = ['-I' + HARNESS, '-I' + config_header(), '-I' + os.path.join(REPO, 'src/include')]
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    res = {}

    def comp(name, src, flags, out):
        if os.path.exists(out):
            os.utime(out)
            return
        tmp = out + '.tmp%d-%d' % (os.getpid(), threading.get_ident())
        lang = ['-x', 'c++'] if src.endswith('.c++') else []
        cmd = ['g++', '-std=gnu++17', '-pthread', '-c'] + flags + inc + lang + [src, '-o', tmp]
        rc, o = run(cmd, 600)
        if rc != 0:
            raise CheckError('compiling %s failed:\n%s\n%s' % (src, ' '.join(cmd), o[-4000:]))
        os.replace(tmp, out)

    jobs = []
    for name, src, flags in objs:
        k = hashlib.sha256(('%s|%s|%s' % (key0, src, ' '.join(flags))).encode()).hexdigest()[:20]
        out = os.path.join(cache, '%s-%s.o' % (re.sub(r'\W', '_', name), k))
        res[name] = out
        jobs.append(lambda n=name, s=src, f=flags, o=out: comp(n, s, f, o))
    parallel(jobs)

    def ln(exe, names, flags):
        k = hashlib.sha256('|'.join([res[n] for n in names] + flags).encode()).hexdigest()[:20]
        out = os.path.join(cache, '%s-%s' % (exe, k))
        if not os.path.exists(out):
            tmp = out + '.tmp%d-%d' % (os.getpid(), threading.get_ident())
            cmd = ['g++', '-pthread'] + [res[n] for n in names] + ['-o', tmp] + flags
            rc, o = run(cmd, 600)
            if rc != 0:
                raise CheckError('linking %s failed:\n%s' % (exe, o[-4000:]))
            os.replace(tmp, out)
        res[exe] = out

    parallel([lambda x=x: ln(*x) for x in (link or [])])
    prune(cache)
    return res


def prune(cache, keep=400):
    fs = sorted(glob.glob(cache + '/*'), key=lambda p: -os.path.getmtime(p) if os.path.exists(p) else 0)
    for p in fs[keep:]:
        try:
            os.unlink(p)
        except OSError:
            pass


# --------------------------------------------------------------------------- TLC

def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, Raw):
        return v.s
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t')
    if isinstance(v, (list, tuple)):
        return '<<%s>>' % ', '.join(tla(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return '{%s}' % ', '.join(sorted(tla(x) for x in v))
    if isinstance(v, dict):
        if not v:
            return '<<>>'
        return '[%s]' % ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items())
    raise ValueError(v)


class Raw:
    def __init__(self, s):
        self.s = s


class TlcResult:
    def __init__(self, rc, out, text):
        self.rc, self.out, self.text = rc, out, text
        self.generated = self.distinct = 0
        m = re.findall(r'(\d[\d,]*) states generated(?:[^,]*), (\d[\d,]*) distinct states found', text)
        if m:
            self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1])
        m = re.findall(r'The number of states generated: (\d[\d,]*)', text)
        if m:
            self.generated = int(m[-1].replace(',', ''))
        self.ok = rc == 0

    def error(self):
        i = self.text.find('Error:')
        return self.text[i:i + 3000] if i >= 0 else self.text[-3000:]


def tlc(chk, name, module, consts, body='', spec='Spec', invariants=(), properties=(), constraints=(),
        action_constraints=(), view=None, postcondition=None, symmetry=None, extra=(), workers=1,
        mem='2g', timeout=800, depth=None, simulate=None, seed=None, jvm=(), deadlock=False, keep=True):
    """Runs TLC on a model made from module with the constants given."""
    d = os.path.join(chk.work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    mod = 'MC_' + re.sub(r'\W', '_', name)
    lines = ['---- MODULE %s ----' % mod, 'EXTENDS %s' % module, body]
    cfg = ['SPECIFICATION %s' % spec]
    for k, v in consts.items():
        lines.append('const_%s == %s' % (k, tla(v)))
        cfg.append('CONSTANT %s <- const_%s' % (k, k))
    lines.append('====')
    for kw, xs in (('INVARIANT', invariants), ('PROPERTY', properties), ('CONSTRAINT', constraints),
                   ('ACTION_CONSTRAINT', action_constraints)):
        for x in xs:
            cfg.append('%s %s' % (kw, x))
    if view:
        cfg.append('VIEW ' + view)
    if symmetry:
        cfg.append('SYMMETRY ' + symmetry)
    if postcondition:
        cfg.append('POSTCONDITION ' + postcondition)
    cfg.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
    open(os.path.join(d, mod + '.tla'), 'w').write('\n'.join(lines) + '\n')
    open(os.path.join(d, mod + '.cfg'), 'w').write('\n'.join(cfg) + '\n')
    out = os.path.join(d, 'out.txt')
    cmd = ['java', '-Xmx' + mem, '-Xss16m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC] + list(jvm) + [
           '-cp', JARS, 'tlc2.TLC', '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE',
           '-workers', str(workers), '-config', mod + '.cfg']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(seed)]
        if depth:
            cmd += ['-depth', str(depth)]
    cmd += list(extra) + [mod]
    rc, _ = run(cmd, timeout, cwd=d, out=out)
    shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
    text = []
    with open(out, errors='replace') as f:
        for line in f:
            if not line.startswith('"['):
                text.append(line)
    r = TlcResult(rc, out, ''.join(text))
    r.timed_out = rc is None
    return r


def tlc_ok(chk, r, what):
    if r.timed_out:
        raise CheckError('TLC did not finish: ' + what)
    if not r.ok:
        raise CheckError('TLC rejects the specification itself: %s (exit %s)\n%s' % (what, r.rc, r.error()))


def count_traces(path):
    n = 0
    with open(path, 'rb') as f:
        for line in f:
            if line.startswith(b'"[\\'):
                n += 1
    return n


def get_trace(path, n):
    k = 0
    with open(path, errors='replace') as f:
        for line in f:
            if line.startswith('"[\\'):
                k += 1
                if k == n:
                    return line
    return None


def decode(line):
    return json.loads(re.sub(r'\\(.)', r'\1', line.strip()[1:-1]))


def encode(j):
    return '"' + json.dumps(j, separators=(',', ':')).replace('\\', '\\\\').replace('"', '\\"') + '"\n'


# --------------------------------------------------------------------------- replaying behaviours

def replay_files(chk, exe, files, args=(), what='', env=None, timeout=600, cut=None, n=NCPU):
    """Replays the behaviours in the files on the real code, with the harness exe."""
    def one(i, f):
        prog = os.path.join(chk.work, 'progress-%s-%d' % (os.path.basename(exe)[:20], i))
        e = dict(SAN_ENV)
        e.update(env or {})
        rc, out = run([exe, '-p', prog] + list(args) + [f], timeout, env=e, cwd=chk.work)
        return rc, out, prog, f

    for rc, out, prog, f in parallel([lambda i=i, f=f: one(i, f) for i, f in enumerate(files)], n):
        m = re.search(r'DONE traces=(\d+) steps=(\d+)', out)
        if rc == 0 and m:
            chk.traces += int(m.group(1))
            chk.steps += int(m.group(2))
            continue
        if rc is None:
            # which one hangs is decided by the alarm in the harness; this is something else
            raise CheckError('replaying %s did not finish' % f)
        try:
            num = int(open(prog).read().split()[0])
        except (OSError, IndexError, ValueError):
            raise CheckError('the harness %s failed at once (%s):\n%s' % (exe, rc, out[-3000:]))
        confirm(chk, exe, f, num, list(args), out, rc, what, env, cut)
        if chk.violations:
            return False
    return True


def fails(exe, f, args, env, cwd, num=1):
    e = dict(SAN_ENV)
    e.update(env or {})
    rc, out = run([exe, '-n', str(num)] + args + [f], 90, env=e, cwd=cwd)
    return rc != 0, rc, out


def describe(rc, out):
    m = re.search(r'FAIL \d+ (.*)', out)
    if m:
        return m.group(1)
    m = re.search(r'(?:ERROR: AddressSanitizer|runtime error|Assertion).*', out)
    if m:
        return 'crash: ' + m.group(0)[:300]
    if 'logic_error' in out or 'bad trace' in out:
        return None
    if rc == -14:
        return 'the operation does not return'
    if rc is None:
        return 'the operation does not return'
    m = re.search(r'terminate called.*(?:\n.*)?', out)
    return 'crash: ' + (m.group(0) if m else 'exit %s: %s' % (rc, out[-300:]))


def confirm(chk, exe, f, num, args, out, rc, what, env, cut):
    line = get_trace(f, num)
    d = chk.replay_dir('replay')
    t = os.path.join(d, 'behaviour.txt')
    open(t, 'w').write(line)
    bad, rc2, out2 = fails(exe, t, args, env, d)
    if not bad:
        # not on its own: after the ones before it, then
        shutil.copy(f, os.path.join(d, 'behaviours.txt'))
        e = dict(SAN_ENV)
        e.update(env or {})
        rc2, out2 = run([exe] + args + [f], 600, env=e, cwd=d)
        if rc2 == 0:
            raise CheckError('a failure of behaviour %d in %s does not repeat:\n%s' % (num, f, out[-2000:]))
        t = os.path.join(d, 'behaviours.txt')
    else:
        j = decode(line)
        # the shortest beginning that still fails
        if cut and isinstance(j, list):
            steps = j[cut]
            m = re.search(r'FAIL \d+ step (\d+)', out2)
            for k in ([int(m.group(1))] if m else range(1, min(len(steps), 60))):
                jj = list(j)
                jj[cut] = steps[:k]
                jj[cut + 1] = []
                open(t, 'w').write(encode(jj))
                b, r3, o3 = fails(exe, t, args, env, d)
                if b and describe(r3, o3):
                    rc2, out2 = r3, o3
                    j = jj
                    break
            else:
                open(t, 'w').write(line)
    msg = describe(rc2, out2)
    if msg is None:
        raise CheckError('harness and specification disagree on the format:\n' + out2[-2000:])
    shutil.copy(exe, os.path.join(d, 'harness'))
    open(os.path.join(d, 'output.txt'), 'w').write(out2)
    envs = ' '.join("%s='%s'" % kv for kv in SAN_ENV.items())
    open(os.path.join(d, 'replay.sh'), 'w').write(
        '#!/bin/sh\n# %s\ncd "$(dirname "$0")" && %s ./harness %s %s\n' % (msg.replace('\n', ' '), envs, ' '.join(args), os.path.basename(t)))
    os.chmod(os.path.join(d, 'replay.sh'), 0o755)
    chk.violation('%s %s' % (what, msg), d)


def split(chk, path, n):
    """The behaviours in a file of TLC's output, spread over n files."""
    outs = [open('%s.%d' % (path, i), 'w') for i in range(n)]
    k = 0
    for line in open(path, errors='replace'):
        if line.startswith('"[\\'):
            outs[k % n].write(line)
            k += 1
    for o in outs:
        o.close()
    return [o.name for o in outs]
