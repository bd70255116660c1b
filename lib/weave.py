"""Runs scenarios under the deterministic scheduler (harness/weave) and checks the recorded executions
against specifications."""
import json, os, re, shutil
from vlib import *

WFLAGS = ['-O1', '-g1', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w']
WLINK = ['-ldl', '-rdynamic', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset']
BAD = {'deadlock': 'deadlock: every thread is blocked (%s)', 'livelock': 'the threads never get anywhere',
       'crash': 'crash: %s', 'uaf': '%s', 'badaccess': '%s', 'badfree': '%s', 'badunlock': '%s', 'misuse': '%s'}


def weave_build(name, sources, engine=(), defines=()):
    """Builds a scenario program; sources under harness/, engine: names of files of src/engine."""
    objs = [('weave', os.path.join(HARNESS, 'weave/weave.cpp'), ['-O1', '-g1', '-fno-builtin'])]
    for s in sources:
        objs.append((name + '_' + re.sub(r'\W', '_', s), os.path.join(HARNESS, s), WFLAGS + list(defines)))
    for s in engine_sources([e[:-4] for e in engine]):
        objs.append(('w_' + re.sub(r'\W', '_', os.path.basename(s)), s, WFLAGS))
    r = build(objs, [(name, [o[0] for o in objs], WLINK)])
    return r[name]


class Execution:
    __slots__ = ('scenario', 'seed', 'script', 'dec', 'how', 'detail', 'ev', 'threads', 'steps', 'live')

    def __init__(self, j):
        self.scenario, self.seed, self.script, self.dec = j['scenario'], j['seed'], j['script'], j.get('dec')
        r = j['r']
        self.how, self.detail, self.ev = r['how'], r['detail'], r['ev']
        self.threads, self.steps, self.live = r['threads'], r['steps'], r['live']

    def args(self):
        a = [self.scenario, '-x', str(self.script), '-s', str(self.seed), '-n', '1']
        if self.dec is not None:
            a += ['-D', self.dec or '0']
        return a


def execute(chk, exe, runs, args=(), timeout=700, ignore=()):
    """runs: list of (scenario, number, first seed, schedules per script, preemption bound or None).
    Returns the executions, reporting those that went wrong, except for the ways to be ignored (then as far as they went)."""
    def one(i, scen, n, seed, per, dfs):
        out = os.path.join(chk.work, 'exec-%s-%d.json' % (os.path.basename(exe)[:24], i))
        cmd = [exe, '-o', out, '-s', str(seed), '-n', str(n), '-k', str(per)] + list(args)
        if dfs is not None:
            cmd += ['-d', str(dfs)]
        rc, o = run(cmd + [scen], timeout, cwd=chk.work)
        if rc != 0:
            raise CheckError('%s failed: %s %s' % (' '.join(cmd), rc, o[-1000:]))
        res = []
        for line in open(out):
            res.append(Execution(json.loads(line)))
        os.unlink(out)
        return res, o

    # longer runs are split so that the processors share them
    parts = []
    for scen, n, seed, per, dfs in runs:
        if dfs is None and n > 100:
            k = max(1, min(NCPU, n // 50))
            step = max(per, -(-n // k) // per * per)
            s = 0
            while s < n:
                m = min(step, n - s)
                parts.append((scen, m, seed + s, per, dfs))
                s += m
        else:
            parts.append((scen, n, seed, per, dfs))
    good = []
    for (res, o), part in zip(parallel([lambda i=i, p=p: one(i, *p) for i, p in enumerate(parts)]), parts):
        for x in res:
            if x.how == 'end':
                good.append(x)
            elif x.how in ignore:
                x.ev = x.ev[:300]
                good.append(x)
            elif x.how in BAD:
                report_bad(chk, exe, args, x)
            else:
                raise CheckError('an execution of %s was not recorded: %s %s (seed %s script %s)' % (x.scenario, x.how, x.detail, x.seed, x.script))
        if part[4] is not None:
            k = 'systematic_%s' % ('exhausted' if 'not exhausted' not in o else 'cut')
            chk.notes[k] = chk.notes.get(k, 0) + 1
    chk.steps += sum(x.steps for x in good)
    chk.notes['executions'] = chk.notes.get('executions', 0) + len(good)
    return good


def rerun(exe, args, x, cwd):
    rc, o = run([exe] + x.args() + list(args), 120, cwd=cwd)
    for line in o.splitlines():
        if line.startswith('{'):
            try:
                return Execution(json.loads(line))
            except ValueError:
                pass
    return None


def save(chk, exe, args, x, extra=''):
    d = chk.replay_dir('replay')
    shutil.copy(exe, os.path.join(d, 'scenario'))
    json.dump({'scenario': x.scenario, 'seed': x.seed, 'script': x.script, 'how': x.how, 'detail': x.detail, 'ev': x.ev},
              open(os.path.join(d, 'execution.json'), 'w'))
    open(os.path.join(d, 'replay.sh'), 'w').write(
        '#!/bin/sh\n# prints the execution as JSON\n%scd "$(dirname "$0")" && ./scenario %s\n' % (extra, ' '.join(x.args() + list(args))))
    os.chmod(os.path.join(d, 'replay.sh'), 0o755)
    return d


def report_bad(chk, exe, args, x):
    if len(chk.violations) >= 3:
        return
    y = rerun(exe, args, x, chk.work)
    if y is None or y.how != x.how:
        raise CheckError('an execution of %s does not repeat: %s %s, then %s' % (x.scenario, x.how, x.detail, y and y.how))
    m = BAD[x.how]
    tail = ' '.join(json.dumps(e) for e in x.ev[-6:])
    chk.violation('%s: %s; last events: %s' % (x.scenario, m % x.detail if '%s' in m else m, tail), save(chk, exe, args, x))


MEM = ('R', 'W', 'F', 'AR', 'AW', 'RMW', 'CASF')


def hb_events(x, texts=()):
    """The events of the memory model (and the recorded ones named in texts), without the accesses to memory that
    threads hand over to each other by starting and ending alone, and repetitions that tell nothing."""
    T = x.threads + 1
    clock = [[1 if i == t else 0 for i in range(T)] for t in range(T)]
    last = {}       # cell -> thread -> (own clock at the last read, at the last write)
    mixed = set()   # cells needing more than that
    for e in x.ev:
        k, t = e[0], e[1]
        if k == 'S':
            u = e[2]
            clock[u] = [max(a, b) for a, b in zip(clock[u], clock[t])]
            clock[u][u] = max(1, clock[u][u])
            clock[t][t] += 1
        elif k == 'J':
            clock[t] = [max(a, b) for a, b in zip(clock[t], clock[e[2]])]
        elif k in MEM:
            if k in ('AR', 'AW', 'RMW', 'CASF'):
                mixed.add(e[2])
                continue
            c = last.setdefault(e[2], {})
            for u, (r, w) in c.items():
                if u != t and (w > clock[t][u] or (k != 'R' and r > clock[t][u])):
                    mixed.add(e[2])
            r, w = c.get(t, (0, 0))
            c[t] = (clock[t][t], w) if k == 'R' else (r, clock[t][t])
    res, prev = [], None
    for e in x.ev:
        k = e[0]
        if k in MEM:
            if e[2] not in mixed:
                continue
            key = (k, e[1], e[2], e[3] if k in ('AR', 'AW', 'RMW', 'CASF') else '')
            if key == prev:
                continue
            prev = key
            res.append(e)
        elif k in ('FN', 'L', 'U', 'RL', 'RU', 'S', 'J'):
            prev = None
            res.append(e)
        elif k == 'e' and texts and e[2] in texts:
            prev = None
            res.append(e)
    return merged(res)


def merged(evs):
    """Cells used alike (the same kinds of plain accesses by the same threads, with nothing in between that orders threads)
    are judged alike: one of each sort is kept, and of its repetitions too."""
    sig, atomic, segs, seg, last = {}, set(), [], 0, None
    for e in evs:
        plain = e[0] in ('R', 'W', 'F')
        now = (plain, e[1])
        if not plain or now != last:
            seg += 1
        last = now
        segs.append(seg)
        if plain:
            s = sig.setdefault(e[2], {})
            s.setdefault((seg, e[0] == 'R'))
        elif e[0] in MEM:
            atomic.add(e[2])
    first = {}
    keep = set(atomic)
    for c, s in sig.items():
        if c not in atomic:
            k = tuple(s)
            if k not in first:
                first[k] = c
                keep.add(c)
    res, seen = [], set()
    for e, g in zip(evs, segs):
        if e[0] in ('R', 'W', 'F'):
            k = (e[2], g, e[0] == 'R')
            if e[2] not in keep or k in seen:
                continue
            seen.add(k)
        res.append(e)
    return res


def hb_project(x, texts=(), info=0):
    """These events, with cells and locks renumbered."""
    cells, locks, res = {}, {}, []
    for e in hb_events(x, texts):
        k = e[0]
        if k in ('R', 'W', 'F'):
            res.append([k, e[1], cells.setdefault(e[2], len(cells) + 1)])
        elif k in ('AR', 'AW', 'RMW', 'CASF'):
            res.append([k, e[1], cells.setdefault(e[2], len(cells) + 1), e[3]])
        elif k in ('L', 'U', 'RL', 'RU'):
            res.append([k, e[1], locks.setdefault(e[2], len(locks) + 1)])
        elif k in ('FN', 'S', 'J', 'e'):
            res.append(e)
    return [[x.threads, len(cells), len(locks), info, res]]


def ev_project(info=None, keep=lambda e: True):
    """The events the scenario recorded itself."""
    def p(x):
        return [[x.threads, 0, 0, info(x) if info else 0, [e[1:] for e in x.ev if e[0] == 'e' and keep(e)]]]
    return p


def against(chk, exe, args, execs, module, project, what, consts=None, batch=None, maxtraces=None, mem='2g', timeout=800,
            describe=None, invariants=()):
    """Checks that the executions, projected, are behaviours of the specification."""
    seen = {}
    for x in execs:
        for t in project(x):
            key = json.dumps(t, separators=(',', ':'))
            if key not in seen:
                seen[key] = x
    keys = list(seen)
    if maxtraces and len(keys) > maxtraces:
        chk.notes['not_compared_' + module] = chk.notes.get('not_compared_' + module, 0) + len(keys) - maxtraces
        keys = keys[:maxtraces]
    if not keys:
        return True
    batch = batch or max(1, min(400, -(-len(keys) // NCPU)))
    chunks = [keys[i:i + batch] for i in range(0, len(keys), batch)]
    chk.batches = getattr(chk, 'batches', 0) + 1
    tag = chk.batches

    def one(i, ks):
        f = os.path.join(chk.work, 'traces-%s-%d-%d.ndjson' % (module, tag, i))
        open(f, 'w').write('\n'.join(ks) + '\n')
        c = {'TraceFile': f}
        c.update(consts or {})
        r = tlc(chk, 'trace_%s_%d_%d' % (module, tag, i), module, c, action_constraints=['Furthest'], postcondition='AllFollowed',
                mem=mem, timeout=timeout, invariants=invariants)
        m = re.search(r'<<"FURTHEST", (\d+), (\d+), (\d+)>>', r.text)
        if r.timed_out or not m or (r.rc != 0 and 'ostcondition' not in r.text and 'POSTCONDITION' not in r.text):
            shutil.copy(f, '/tmp/last-failed-traces.ndjson') if os.environ.get('VERIF_DEBUG') else None
            raise CheckError('TLC failed on %s: %s' % (module, 'time' if r.timed_out else r.error()))
        return r, [int(v) for v in m.groups()], f, ks

    for r, (tr, l, n), f, ks in parallel([lambda i=i, ks=ks: one(i, ks) for i, ks in enumerate(chunks)]):
        chk.states += r.distinct
        chk.transitions += r.generated
        chk.traces += min(tr - 1, len(ks))
        if r.rc == 0:
            continue
        if tr > n:
            raise CheckError('TLC fails on %s although every execution was followed: %s' % (module, r.error()))
        if len(chk.violations) >= 3:
            continue
        key = ks[tr - 1]
        x = seen[key]
        t = json.loads(key)
        d = save(chk, exe, args, x, '# %s does not allow the execution after event %d\n' % (module, l - 1))
        open(os.path.join(d, 'trace.ndjson'), 'w').write(key + '\n')
        evs = t[4]
        msg = describe(x, t, l) if describe else None
        if not msg:
            ctx = ' '.join(json.dumps(e) for e in evs[max(0, l - 7):l - 1])
            here = json.dumps(evs[l - 1]) if l <= len(evs) else 'the end'
            msg = '%s, which does not allow %s after %s' % (module, here, ctx)
        chk.violation('%s: %s: %s' % (what, x.scenario, msg), d)
    return not chk.violations


def race_describe(exe):
    def d(x, t, l):
        """Names the access and the earlier one it is not ordered after."""
        hb = hb_events(x)
        e = hb[l - 1]
        def at(e):
            pc = e[4]
            rc, o = run(['addr2line', '-C', '-f', '-s', '-p', '-i', '-e', exe, hex(int(pc))], 20)
            return ' '.join(o.split())[:200]
        def name(e):
            return {'R': 'read', 'W': 'write', 'F': 'release', 'AR': 'atomic read', 'AW': 'atomic write', 'RMW': 'atomic update', 'CASF': 'atomic read'}[e[0]]
        if len(e) < 5:
            return None
        prev = [p for p in hb[:l - 1] if p[0] in ('R', 'W', 'F', 'AR', 'AW', 'RMW', 'CASF') and p[2] == e[2] and p[1] != e[1]]
        s = 'data race: %s by thread %d at %s' % (name(e), e[1], at(e))
        if prev:
            s += ' is not ordered after the %s by thread %d at %s' % (name(prev[-1]), prev[-1][1], at(prev[-1]))
        return s
    return d


def races(chk, exe, args, execs, what='data race freedom', **kw):
    return against(chk, exe, args, execs, 'HBTrace', hb_project, what, describe=race_describe(exe), **kw)
