"""Checks of PagedStack: P01..P07 by replaying behaviours of spec/PagedStackGen.tla."""
import os
from vlib import *

GEOS = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (5, 3), (7, 2)]
TYPES = {
    'tracked': ['-DELEM=Tracked'],
    'int': ['-DELEM=long', '-DMUTEX=std::mutex', '-DSTD_ALLOC'],
    'string': ['-DELEM=std::string', '-DMUTEX=CheckMutex'],
    'strstd': ['-DELEM=std::string', '-DMUTEX=std::mutex', '-DSTD_ALLOC'],
}
FLAGS = ['-O1', '-g1', '-D_GLIBCXX_SANITIZE_VECTOR=1'] + SAN


def harness(types):
    objs = [('stack_' + t, os.path.join(HARNESS, 'stack_replay.cpp'), FLAGS + TYPES[t]) for t in types]
    r = build(objs, [('stack_replay_' + t, ['stack_' + t], SAN) for t in types])
    return [r['stack_replay_' + t] for t in types]


def consts(ops, stacks=1, iters=0, piters=0, geos=GEOS, maxsize=16, depth=80, sim=True, maxargs=6, bulk=9):
    return {'Stacks': set(range(1, stacks + 1)), 'Iters': set(range(1, iters + 1)), 'PIters': set(range(1, piters + 1)),
            'Geometries': set(tuple(g) for g in geos), 'MaxSize': maxsize, 'Ops': ops, 'Depth': depth, 'Sim': sim,
            'MaxArgs': maxargs, 'BulkMax': bulk}


INVS = ['TypeOK', 'CapOK', 'ShrOK', 'DistinctOK']


def refinement(chk, geo, iters, maxsize, maxargs):
    """The algorithm over pages refines the abstract stack."""
    r = tlc(chk, 'refine_%d_%d_%d' % (geo + (iters,)), 'PagedStackPages',
            {'Geo': tuple(geo), 'Iters': set(range(1, iters + 1)), 'MaxSize': maxsize, 'MaxVal': 10 ** 6, 'MaxArgs': maxargs},
            invariants=['PagesOK', 'IterOK'], properties=['Refines', 'RefPush', 'RefPop', 'RefDisc', 'RefShrink', 'RefIter'],
            view='Shape')
    tlc_ok(chk, r, 'refinement')
    chk.states += r.distinct
    chk.transitions += r.generated
    chk.notes.setdefault('refinement_states', 0)
    chk.notes['refinement_states'] += r.distinct
    return r


def decide(chk, types, watch, sims, bfs, refine=()):
    """sims: list of (name, num, consts), run with one JVM each; bfs: list of (name, consts)."""
    exes = harness(types)
    files = []

    def sim(name, num, c, k):
        r = tlc(chk, name, 'PagedStackGen', c, spec='GenSpec',
                invariants=[i for i in INVS if i != 'DistinctOK' or (c['MaxSize'] < 20 and 'pushown' not in c['Ops'])] + ['EmitSim'],
                simulate=num, depth=c['Depth'], seed=chk.seed * 1000 + k)
        tlc_ok(chk, r, name)
        return r

    def full(name, c):
        r = tlc(chk, name, 'PagedStackGen', c, spec='GenSpec', invariants=[i for i in INVS if i != 'DistinctOK' or 'pushown' not in c['Ops']], action_constraints=['EmitStep'],
                view='View', workers=1)
        tlc_ok(chk, r, name)
        return r

    parallel([lambda x=x: refinement(chk, *x) for x in refine])
    rs = parallel([lambda x=x: full(*x) for x in bfs] + [lambda x=x, k=k: sim(*x, k) for k, x in enumerate(sims)])
    for x, r in zip([b[0] for b in bfs] + [s[0] for s in sims], rs):
        chk.states += r.distinct or r.generated
        chk.transitions += r.generated
        files.append(r.out)
        chk.log(x, 'generated', r.generated, 'distinct', r.distinct)
    for f in files[:1] + files[-1:]:
        t = get_trace(f, 3)
        if t:
            chk.sample(t[:600])
    chk.notes['element_types'] = types
    chk.notes['behaviours_generated'] = sum(count_traces(f) for f in files)
    for e, t in zip(exes, types):
        if not replay_files(chk, e, files, ['-m', watch], 'PagedStack of %s:' % t, cut=1):
            return
    chk.assumptions += ['page sizes and preallocation of at least 1', 'removing calls ask for no more than is there',
                        'iterators are not moved beyond their ends']


def scale(chk, quick, thorough):
    return quick if chk.quick else thorough


def shards(chk, name, q, t, c):
    """Random exploration spread over JVMs."""
    n = scale(chk, 4, 8)
    num = scale(chk, q, t)
    return [('%s%d' % (name, i), num, c) for i in range(n)]


BIG = [(16, 1), (13, 2), (64, 1), (1, 5), (8, 4)]
DEF = [(1024, 4)]
DEEP = [(1, 1), (1, 3), (2, 2)]


def deep(chk, ops, n, **kw):
    """Hundreds of pages, and tens of thousands of elements."""
    return [('deep', scale(chk, n, 20 * n), consts(ops, geos=DEEP, maxsize=800, depth=30, bulk=420, **kw)),
            ('huge', scale(chk, 2, 30), consts(ops, geos=DEF, maxsize=70000, depth=14, bulk=40000, **kw))]


def P01(chk):
    ops = ['push', 'push', 'emplace', 'pushown', 'topown', 'pop', 'pop', 'pop0', 'poprev', 'discard', 'discardpage', 'discardat', 'clear',
           'settop', 'setat', 'pushbulk', 'stats', 'forward']
    big = ['pushbulk', 'pushbulk', 'pushbulk', 'push', 'pop', 'poprev', 'discard', 'discard', 'discardpage', 'discardat', 'settop', 'emplace', 'pushown']
    decide(chk, ['tracked', 'int', 'string'], 'l',
           shards(chk, 'sim', 1500, 15000, consts(ops)) +
           [('big', scale(chk, 60, 1500), consts(big, geos=BIG, maxsize=200, depth=60, bulk=90)),
            ('deflt', scale(chk, 4, 60), consts(big, geos=DEF, maxsize=9000, depth=50, bulk=2100))] + deep(chk, big, 6),
           [('full', consts(ops[1:], geos=[(1, 1), (2, 1), (3, 2)] if chk.quick else [(1, 1), (1, 2), (2, 1), (3, 2), (4, 1)],
                            maxsize=scale(chk, 6, 9), sim=False, maxargs=scale(chk, 3, 4), bulk=scale(chk, 3, 9)))],
           refine=[((1, 1), 0, 8, 3), ((2, 1), 0, 9, 4), ((3, 2), 0, 12, 4)] if chk.quick else [((1, 2), 0, 14, 5), ((2, 3), 0, 16, 5), ((3, 2), 0, 20, 6), ((4, 1), 0, 20, 6)])


def P02(chk):
    ops = ['push', 'pop', 'discard', 'clear', 'pushbulk', 'discardpage', 'forward', 'reverse', 'fromtop', 'setat',
           'pbegin', 'pend', 'pfromtop', 'pcopy', 'peq', 'pset'] + ['pmove', 'pget'] * 5 + ['pjump', 'pbegin', 'pfromtop', 'forward', 'reverse', 'fromtop']
    decide(chk, ['tracked', 'int', 'string'], '',
           shards(chk, 'sim', 1500, 15000, consts(ops, piters=3, depth=120)) +
           [('big', scale(chk, 40, 1000), consts(['pushbulk', 'discard', 'forward', 'reverse', 'fromtop', 'pbegin', 'pend', 'pmove', 'pget', 'pmove', 'pjump', 'pget', 'pset', 'peq'],
                                                  piters=2, geos=BIG, maxsize=200, depth=60, bulk=90)),
            ('deflt', scale(chk, 2, 40), consts(['pushbulk', 'pushbulk', 'discard', 'forward', 'reverse', 'fromtop'], geos=DEF, maxsize=6000, depth=30, bulk=2100))] +
           deep(chk, ['pushbulk', 'pushbulk', 'discard', 'reverse', 'pbegin', 'pend', 'pfromtop', 'pjump', 'pget', 'pjump', 'pget'], 6, piters=2),
           [('full', consts(['push', 'pop', 'forward', 'reverse', 'fromtop', 'setat', 'pbegin', 'pend', 'pfromtop', 'pmove', 'pget', 'pset', 'peq'],
                            piters=scale(chk, 1, 2), geos=[(1, 1), (2, 1), (3, 2)], maxsize=scale(chk, 5, 6), sim=False, maxargs=1, bulk=3))])


def P03(chk):
    ops = ['push', 'push', 'pop', 'discard', 'clear', 'pushbulk', 'discardpage', 'stats'] + ['peek', 'peekd', 'peekr', 'distr'] * 4
    decide(chk, ['tracked', 'int', 'string'], 'rp',
           shards(chk, 'sim', 1500, 15000, consts(ops, depth=100)) +
           [('big', scale(chk, 60, 1000), consts(['pushbulk', 'pushbulk', 'discard', 'discardpage', 'peek', 'peekd', 'peekr', 'distr', 'peekd'], geos=BIG, maxsize=200, depth=60, bulk=90)),
            ('deflt', scale(chk, 2, 40), consts(['pushbulk', 'pushbulk', 'discard', 'peek', 'peekd', 'peekd', 'peekr'], geos=DEF, maxsize=6000, depth=30, bulk=2100))] +
           deep(chk, ['pushbulk', 'pushbulk', 'discard', 'peek', 'peekd', 'peekd', 'peekr', 'distr'], 6),
           [('full', consts(['push', 'pop', 'stats', 'peek', 'peekd', 'peekr', 'distr'],
                            geos=[(1, 1), (2, 1), (3, 2), (4, 1)], maxsize=scale(chk, 7, 10), sim=False, maxargs=scale(chk, 4, 6), bulk=3))])


def P04(chk):
    ops = ['push', 'push', 'emplace', 'pop', 'pop0', 'poprev', 'discard', 'discardpage', 'discardat', 'clear',
           'settop', 'pushbulk', 'pushbulk', 'stats', 'shrink', 'shrink', 'forward', 'peekd']
    two = ['push', 'pushbulk', 'pop', 'discard', 'clear', 'shrink', 'create', 'destroy', 'settop', 'discardpage']
    decide(chk, ['tracked', 'string', 'strstd'], 'pmal',
           shards(chk, 'sim', 1500, 15000, consts(ops)) +
           [('two', scale(chk, 1000, 10000), consts(two, stacks=2)),
            ('big', scale(chk, 60, 1000), consts(ops, geos=BIG, maxsize=200, depth=60, bulk=90)),
            ('deflt', scale(chk, 3, 60), consts(ops, geos=DEF, maxsize=9000, depth=50, bulk=2100))] +
           deep(chk, ['pushbulk', 'pushbulk', 'discard', 'discardpage', 'stats', 'shrink', 'push', 'clear'], 6),
           [('full', consts(ops[1:], geos=[(1, 1), (2, 1), (3, 2)] if chk.quick else [(1, 1), (1, 2), (2, 1), (3, 2), (4, 1)],
                            maxsize=scale(chk, 6, 9), sim=False, maxargs=3, bulk=scale(chk, 3, 7)))],
           refine=[((1, 1), 1, 6, 3), ((2, 3), 0, 9, 4)] if chk.quick else [((1, 2), 1, 10, 4), ((2, 3), 1, 12, 4), ((3, 1), 1, 14, 5)])


def P05(chk):
    ops = ['push', 'push', 'pushbulk', 'pop', 'discard', 'discard', 'discardpage', 'clear', 'shrink', 'stats', 'sbegin', 'sbegin', 'send',
           'scopy', 'sassign', 'sdrop', 'sfail', 'seq', 'seq'] + ['sget', 'snext', 'sprev'] * 4
    decide(chk, ['tracked', 'int', 'string'], 'pm',
           shards(chk, 'sim', 1500, 15000, consts(ops, stacks=1, iters=3, depth=140)) +
           [('two%d' % i, scale(chk, 1200, 12000), consts(ops + ['create', 'destroy'], stacks=2, iters=4, depth=160)) for i in range(2)] +
           [('big', scale(chk, 60, 1000), consts(ops, iters=2, geos=BIG, maxsize=200, depth=60, bulk=90))] +
           deep(chk, ['pushbulk', 'pushbulk', 'discard', 'shrink', 'stats', 'sbegin', 'sdrop', 'sget', 'snext', 'sprev'], 6, iters=2),
           [('full', consts(['push', 'pop', 'discard', 'clear', 'shrink', 'sbegin', 'send', 'scopy', 'sassign', 'sdrop', 'sget', 'snext', 'sprev', 'sfail', 'seq'],
                            iters=scale(chk, 1, 2), geos=[(1, 1), (2, 1)] if chk.quick else [(1, 1), (2, 1), (3, 2)],
                            maxsize=scale(chk, 4, 5), sim=False, maxargs=1, bulk=4))],
           refine=[((1, 1), 1, 6, 2), ((2, 1), 1, 7, 3), ((3, 2), 1, 8, 3)] if chk.quick else [((1, 1), 2, 6, 2), ((2, 1), 2, 7, 3), ((3, 2), 2, 8, 3), ((2, 2), 3, 5, 2)])


def P06(chk):
    ops = ['push', 'push', 'emplace', 'pop', 'discard', 'discardpage', 'clear', 'shrink', 'stats', 'settop',
           'pushthrow', 'pushthrow', 'emplacethrow', 'emplacethrow', 'pushnomem', 'pushnomem', 'pushshort', 'popthrow', 'poprevthrow', 'peekthrow',
           'pushbulk', 'poprev', 'pop0', 'forward', 'reverse', 'discardat']
    copies = ['copy', 'assign', 'destroy', 'create', 'pushbulk', 'shrink'] + ['copythrow', 'copynomem', 'assignthrow', 'assignnomem'] * 3
    decide(chk, ['tracked'], 'plm',
           shards(chk, 'sim', 2500, 25000, consts(ops)) +
           [('big', scale(chk, 60, 1000), consts(ops, geos=BIG, maxsize=200, depth=60, bulk=90)),
            ('copies', scale(chk, 2000, 20000), consts(ops + copies, stacks=3)),
            ('bigcopies', scale(chk, 40, 600), consts(ops + copies, stacks=2, geos=BIG, maxsize=200, depth=60, bulk=90))],
           [('full', consts([o for o in ops[1:] if o not in ('forward', 'reverse')], geos=[(1, 1), (2, 1), (3, 2)], maxsize=scale(chk, 6, 9), sim=False, maxargs=3, bulk=3))])
    # memory failures also with the elements that own memory
    if not chk.violations:
        decide(chk, ['string'], 'p',
               [('nomem', scale(chk, 1500, 15000), consts([o for o in ops if not o.endswith('throw')])),
                ('nomemcopies', scale(chk, 1000, 10000), consts([o for o in ops + copies if not o.endswith('throw')], stacks=3))], [])
    chk.assumptions += ['failures considered: a copy or construction of an element throws; the allocator throws']


def P07(chk):
    ops = ['push', 'push', 'emplace', 'pushbulk', 'pop', 'poprev', 'discard', 'discardpage', 'discardat', 'clear', 'shrink', 'settop', 'setat',
           'copy', 'copy', 'move', 'assign', 'assign', 'create', 'destroy', 'forward', 'reverse']
    decide(chk, ['tracked', 'int', 'string'], 'lm',
           shards(chk, 'sim', 1500, 15000, consts(ops, stacks=3, depth=100)) +
           [('iter', scale(chk, 1000, 10000), consts(ops + ['sbegin', 'sdrop', 'snext', 'sget'], stacks=2, iters=2, depth=100)),
            ('big', scale(chk, 50, 800), consts(ops, stacks=2, geos=BIG, maxsize=200, depth=60, bulk=90))] +
           deep(chk, ['pushbulk', 'pushbulk', 'discard', 'copy', 'assign', 'move', 'destroy', 'create', 'settop'], 6, stacks=2),
           [('full', consts(['push', 'pop', 'discard', 'clear', 'shrink', 'settop', 'copy', 'move', 'assign', 'destroy'], stacks=2,
                            geos=[(1, 1), (2, 1)], maxsize=scale(chk, 3, 4), sim=False, maxargs=1, bulk=3))])


def P08(chk):
    from weave import weave_build, execute, against, races, ev_project
    exe = weave_build('stack_weave', ['stack_weave.cpp'], ['futex.cpp'])
    scens = ['mmutex', 'cmutex', 'gmutex', 'mfutex', 'cfutex']
    n = 1600 if chk.quick else 16000
    base = chk.seed * 1000003
    runs = [(s, n if s[0] == 'm' else n // 2, base, 4, None) for s in scens]
    runs += [(s, 200 if chk.quick else 3000, base + 99, 2 if chk.quick else 20, 2) for s in scens[:3]]
    xs = execute(chk, exe, runs)
    chk.assumptions = ['calls are made within their preconditions (enough elements; iterators not moved past the ends)',
                       'top() const and the iterators that are not synchronised give unlocked access and are not used concurrently']
    if chk.violations:
        return
    against(chk, exe, (), xs, 'StackTrace', ev_project(), 'calls in some sequential order')
    races(chk, exe, (), xs[::4 if chk.quick else 2])
