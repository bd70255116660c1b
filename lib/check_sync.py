"""Checks of the locks, the atomic helpers and the singleton: X01..X04, S01."""
from vlib import *
from weave import *


def exe_sync():
    return weave_build('sync_weave', ['sync_weave.cpp'], ['futex.cpp'])


def design(chk, jobs):
    """jobs: list of (name, module, constants, invariants, properties)."""
    def one(name, module, consts, inv, props):
        r = tlc(chk, name, module, consts, invariants=inv, properties=props)
        tlc_ok(chk, r, name)
        return r
    for r in parallel([lambda j=j: one(*j) for j in jobs]):
        chk.states += r.distinct
        chk.transitions += r.generated
    chk.notes['design_models'] = chk.notes.get('design_models', 0) + len(jobs)


def sweep(chk, exe, scens, quick, thorough, per=4, dfs=None, args=(), ignore=()):
    """Random schedules of many scripts, and systematically explored schedules of a few."""
    n = quick if chk.quick else thorough
    base = chk.seed * 1000003
    runs = [(s, n, base, per, None) for s in scens]
    if dfs:
        m, k, bound = dfs if chk.quick else (dfs[0] * 10, dfs[1] * 2, dfs[2])
        runs += [(s, m, base + 77, k, bound) for s in scens]
    return execute(chk, exe, runs, args, ignore=ignore)


def lock_texts(x, info):
    return hb_project(x, texts=('c', 'r'), info=info)


def futex_yields(n):
    """For each lock() of each thread: its attempts on the futex's word and its yields."""
    def p(x):
        res, cur = [], {}
        for e in x.ev:
            t = e[1]
            if e[0] == 'e' and len(e) > 3 and e[3] == 'lock':
                if e[2] == 'c':
                    cur[t] = [['c']]
                elif t in cur:
                    res.append([1, 0, 0, n, cur.pop(t) + [['r']]])
            elif t in cur and e[0] in ('RMW', 'CASF', 'AR', 'AW') and len(e) > 5 and e[5].startswith('futex'):
                cur[t].append(['l' if e[0] == 'AR' else 'a'])
            elif t in cur and e[0] == 'Y':
                cur[t].append(['y'])
        return res
    return p


FUTEX = {'futex0': 0, 'futex1': 1, 'futex2': 2, 'futex3': 3, 'futex7': 7}


def X01(chk):
    exe = exe_sync()
    chk.assumptions = ['executions interleave sequentially; orderings are judged by the C++ memory model over the recorded operations']
    design(chk, [('futex_%d_%d' % (s, n), 'FutexAlg', {'Thr': set(range(1, n + 1)), 'Spin': s, 'Rounds': 2 if n == 2 else 1}, ['WordOK'], ['Refines'])
                 for s in (0, 1, 2) for n in (2, 3)] +
           [('rfutex', 'RFutexAlg', {'Thr': {1, 2}, 'MaxDepth': 2, 'Rounds': 3}, ['CountOK'], ['Refines'])])
    xs = sweep(chk, exe, list(FUTEX), 1000, 15000, dfs=(150, 3, 2), ignore=('livelock', 'deadlock'))
    ys = sweep(chk, exe, ['rfutex'], 1500, 20000, dfs=(300, 3, 2), ignore=('livelock', 'deadlock'))
    if chk.violations:
        return
    against(chk, exe, (), xs, 'ExclusionTrace', lambda x: lock_texts(x, 0), 'exclusion and memory order')
    against(chk, exe, (), ys, 'ExclusionTrace', lambda x: lock_texts(x, 1), 'exclusion and memory order')


def X02(chk):
    exe = exe_sync()
    design(chk, [('futex_%d_%d' % (s, n), 'FutexAlg', {'Thr': set(range(1, n + 1)), 'Spin': s, 'Rounds': 2 if n == 2 else 1},
                  ['WordOK', 'YieldOK'], ['Refines', 'Obtainable'])
                 for s in (0, 1, 2, 3) for n in ((2, 3) if s < 2 else (2,))])
    xs = sweep(chk, exe, list(FUTEX), 1000, 10000, dfs=(150, 3, 2))
    if chk.violations:
        return
    lock = ev_project()
    against(chk, exe, (), xs, 'LockTrace', lock, 'state of the lock', consts={'Recursive': False})
    for s, n in FUTEX.items():
        against(chk, exe, (), [x for x in xs if x.scenario == s], 'YieldTrace', futex_yields(n), 'yields with spin count %d' % n)


def X03(chk):
    exe = exe_sync()
    design(chk, [('rfutex_2', 'RFutexAlg', {'Thr': {1, 2}, 'MaxDepth': 2, 'Rounds': 3}, ['CountOK'], ['Refines', 'Obtainable']),
                 ('rfutex_3', 'RFutexAlg', {'Thr': {1, 2, 3}, 'MaxDepth': 2, 'Rounds': 1 if chk.quick else 2}, ['CountOK'], ['Refines'])])
    # calls that do not overlap, every sequence
    r = build([('rfutex_replay', os.path.join(HARNESS, 'rfutex_replay.cpp'), ['-O1', '-g1'] + SAN),
               ] + [('seq_' + os.path.basename(f)[:-4], f, ['-O1', '-g1'] + SAN) for f in engine_sources(['futex'])],
              [('rfutex_replayer', ['rfutex_replay'] + ['seq_' + os.path.basename(f)[:-4] for f in engine_sources(['futex'])], SAN)])
    files = []
    few = [(2, 6, 4, {1}, set()), (3, 5, 4, {1}, set())] if chk.quick else [(2, 9, 4, {1}, set()), (3, 7, 4, {1}, set())]
    many = [(2, 3, 140000, {1, 255, 256, 65536}, set()), (2, 3 if chk.quick else 4, 3, {1, 2}, {0, 2})]
    crowd = [(2, 3, 1, {1}, {66000})]
    for k, (n, d, m, times, crowds) in enumerate(few + many + crowd):
        g = tlc(chk, 'seq_%d' % k, 'RFutexGen', {'Thr': set(range(1, n + 1)), 'Depth': d, 'MaxDepth': m, 'Times': times, 'Crowds': crowds},
                invariants=['TypeOK', 'Emit'] if crowds != {66000} else ['TypeOK', 'EmitOne'])
        tlc_ok(chk, g, 'RFutexGen')
        chk.states += g.distinct
        chk.transitions += g.generated
        files += split(chk, g.out, 4)
    replay_files(chk, r['rfutex_replayer'], files, what='recursive futex, calls in turn:', cut=1)
    if chk.violations:
        return
    xs = sweep(chk, exe, ['rfutex'], 1600, 20000, dfs=(400, 4, 2))
    if chk.violations:
        return
    against(chk, exe, (), xs, 'LockTrace', ev_project(), 'recursive lock', consts={'Recursive': True})


def X04(chk):
    exe = exe_sync()
    ops = {'inc', 'dec'}
    design(chk, [('counted', 'AtomicAlg', {'Thr': {1, 2, 3}, 'Split': False, 'Operations': {'inc'}, 'Values': {0}, 'Start': 5, 'Most': 4}, ['Counted', 'Balanced'], []),
                 ('balanced', 'AtomicAlg', {'Thr': {1, 2, 3}, 'Split': False, 'Operations': ops, 'Values': {0}, 'Start': 0, 'Most': 4}, ['Balanced'], [])])
    xs = sweep(chk, exe, ['atomic'], 4000, 40000, per=4, dfs=(800, 20, 3))
    if chk.violations:
        return
    against(chk, exe, (), xs, 'AtomicTrace', ev_project(), 'one at a time')
    races(chk, exe, (), xs[:1000 if chk.quick else 8000])


def S01(chk):
    exe = exe_sync()
    exel = weave_build('logger_once', ['logger_once.cpp'], ['futex.cpp', 'logger.cpp', 'logstream.cpp', 'logsystem.cpp'])
    design(chk, [('guard', 'SingletonAlg', {'Thr': {1, 2, 3}, 'Parts': 2, 'Fails': 1}, ['Whole', 'Once'], ['Served'])])
    xs = sweep(chk, exe, ['singleton'], 1500, 20000, dfs=(300, 5, 2))
    ys = sweep(chk, exel, ['instance'], 400, 5000)
    if chk.violations:
        return
    against(chk, exe, (), xs, 'SingletonTrace', ev_project(), 'one whole instance')
    races(chk, exe, (), xs[:800 if chk.quick else 10000])
    against(chk, exel, (), ys, 'SingletonTrace', ev_project(lambda x: 1), 'one application logger')
    races(chk, exel, (), ys[:300 if chk.quick else 3000])
