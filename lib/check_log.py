"""Checks of the logging service and its listeners: L01..L07."""
import os
from vlib import *
from weave import *
from check_sync import design
from check_value import generate


def exe_log():
    return weave_build('log_weave', ['log_weave.cpp'], ['logsystem.cpp', 'logstream.cpp', 'futex.cpp'])


def pool_size(x):
    return next((e[4] for e in x.ev if e[0] == 'e' and e[2] == 'i'), 0)


def service(chk, exe, xs, what, pool=False, **kw):
    against(chk, exe, (), xs, 'LogTrace', ev_project(), what, consts={'PoolJudged': pool, 'PoolSize': pool_size(xs[0]), 'MaxL': 23}, mem='3g', **kw)


def runs(chk, exe, scen, quick, thorough, per=4, args=()):
    return execute(chk, exe, [(scen, quick if chk.quick else thorough, chk.seed * 1000003, per, None)], args)


def systematic(chk, exe, scen, quick, thorough, scripts, bound=2):
    """Schedules explored one after the other."""
    n = quick if chk.quick else thorough
    k = NCPU if chk.quick else 4 * NCPU
    return execute(chk, exe, [(scen, n // k, chk.seed * 1000003 + 1000 * i, scripts, bound) for i in range(k)])


def delivery_design(chk, **kw):
    c = {'Listeners': {1, 2}, 'PoolSize': 1, 'MaxMessages': 2, 'MaxChanges': 3 if chk.quick else 5, 'MaxAllocated': 2}
    c.update(kw)
    design(chk, [('service', 'LogDesign', c, ['TypeOK', 'Increasing', 'NothingLost', 'OnlyAdded'], [])])


def L01(chk):
    exe = exe_log()
    delivery_design(chk)
    xs = runs(chk, exe, 'order', 600, 8000) + runs(chk, exe, 'many', 80, 800) + runs(chk, exe, 'burst', 8, 48, per=1, args=('-A',))
    if not chk.violations:
        service(chk, exe, xs, 'delivery')


# ---- category expressions: trees of spec/Category
def chrs(t):
    r = ('none',)
    for n, c in enumerate(t):
        r = ('chr', c) if n == 0 else ('seq', r, ('chr', c))
    return r


def random_expr(rnd, depth):
    """A random expression, and a function that makes names it matches."""
    k = rnd.randrange(12) if depth else rnd.randrange(4)
    if k < 2:
        return ('chr', rnd.choice('netdb.N_7 -'))
    if k == 2:
        return rnd.choice([('any',), ('word',), ('digit',)])
    if k == 3:
        return ('cls', rnd.random() < .4, tuple(rnd.sample('netdbN.7]^-', rnd.randrange(1, 5))))
    sub = lambda: random_expr(rnd, depth - 1)
    if k < 7:
        return ('seq', sub(), sub())
    if k == 7:
        return ('or', sub(), sub())
    if k == 8:
        return ('grp', sub())
    if k < 11:
        return (rnd.choice(['star', 'plus', 'opt']), sub())
    m = rnd.randrange(3)
    return ('rep', sub(), m, rnd.choice([m or 1, m + 1, m + 2, -1]))


def matched(rnd, r):
    """A name the expression is likely to match."""
    k = r[0]
    if k == 'none':
        return ''
    if k == 'chr':
        return r[1]
    if k in ('any', 'word', 'digit'):
        return rnd.choice({'any': 'neN.7 ', 'word': 'ne_N7', 'digit': '79'}[k])
    if k == 'cls':
        return rnd.choice([c for c in 'netdbN.7]^- x' if (c in r[2]) != r[1]] or ['x'])
    if k == 'seq':
        return matched(rnd, r[1]) + matched(rnd, r[2])
    if k == 'or':
        return matched(rnd, rnd.choice(r[1:]))
    if k == 'grp':
        return matched(rnd, r[1])
    lo, hi = {'star': (0, 3), 'plus': (1, 4), 'opt': (0, 1)}.get(k) or (r[2], r[2] + 3 if r[3] < 0 else r[3])
    return ''.join(matched(rnd, r[1]) for _ in range(rnd.randint(lo, hi)))


def spoiled(rnd, s):
    i = rnd.randrange(len(s) + 1)
    return rnd.choice([s[:i] + s[i + 1:], s[:i] + rnd.choice('nN.7xE ') + s[i:], s + s[-1:], s.swapcase(), s[:i] + s[i:].swapcase(), 'x' + s, s + 'x', s + '\n', s[1:]])


WRONG = ['(', '[z', '*a', 'a{2', ')', 'a)(', '[z-a]', 'a{3,1}', '\\', '(?:a', '+']


def expressions(chk):
    """Behaviours of one listener, against what the specification of expressions says."""
    import random
    rnd = random.Random(chk.seed * 7 + 1)
    exe = build([('category_replay', os.path.join(HARNESS, 'category_replay.cpp'), ['-O1', '-g1', '-w'] + SAN)] +
                [('cat_' + os.path.basename(f)[:-4], f, ['-O1', '-g1', '-w'] + SAN) for f in engine_sources(('logsystem',))],
                [('categories', ['category_replay'] + ['cat_' + os.path.basename(f)[:-4] for f in engine_sources(('logsystem',))], SAN)])['categories']
    atoms = [('chr', 'n'), ('chr', 'N'), ('any',), ('cls', True, ('n', '.'))] + ([] if chk.quick else [('chr', '.'), ('word',)])
    ones = atoms + [(k, a) for k in ('star', 'plus', 'opt') for a in atoms] + [('rep', a, 2, 2) for a in atoms] + [('rep', a, 0, -1) for a in atoms[:2]]
    small = [('none',)] + ones + [(k, a, b) for k in ('seq', 'or') for a in ones for b in ones]
    short = ['']
    for n in range(3 if chk.quick else 4):
        short += [s + c for s in short if len(s) == n for c in 'nN.' + ('' if chk.quick else 'x')]
    seqs = lambda ss: tuple(tuple(s) for s in ss)
    jobs = []
    parts = 6
    for i in range(parts):
        jobs.append(dict(name='every%d' % i, module='CategoryGen', consts={'Exprs': tuple(small[i::parts]), 'Wrong': tuple(WRONG), 'Names': seqs(short), 'Walk': 0, 'Bits': {5}}, invariants=['Sane'] + (['Laws'] if i == 0 else [])))
    # bigger ones, each with names of its own
    n = 40 if chk.quick else 400
    for i in range(4 if chk.quick else 8):
        big = [random_expr(rnd, 2 + j % 4) for j in range(5)] + [chrs('net.io.' + 'subsystem.' * (2 + 3 * i)), ('seq', chrs('subsystem number'), ('star', ('any',))), ('seq', ('star', ('any',)), chrs('.the end of it'))]
        names = [matched(rnd, e) for e in big for _ in range(3)]
        names += [spoiled(rnd, s) for s in names] + ['', 'net', 'n' * 300, 'net.io.' + 'subsystem.' * 40, 'subsystem number ' + '7' * 100]
        names = [s for s in dict.fromkeys(names) if len(s) < 600]
        jobs.append(dict(name='each%d' % i, module='CategoryGen', consts={'Exprs': tuple(big), 'Wrong': tuple(WRONG), 'Names': seqs(names), 'Walk': 0, 'Bits': {5}}, invariants=['Sane']))
        jobs.append(dict(name='walk%d' % i, module='CategoryGen', consts={'Exprs': tuple(big + [('none',)]), 'Wrong': tuple(WRONG), 'Names': seqs(names), 'Walk': 80, 'Bits': set(range(6))}, sim=n, depth=84, k=i))
    files = parallel([lambda j=j: generate(chk, **j) for j in jobs])
    chk.notes['expressions'] = sum(count_traces(f) for f in files)
    replay_files(chk, exe, files, what='categories:')


def L02(chk):
    exe = exe_log()
    expressions(chk)
    if chk.violations:
        return
    xs = runs(chk, exe, 'filter', 1200, 10000, per=2)
    if not chk.violations:
        service(chk, exe, xs, 'filters')


def L03(chk):
    exe = exe_log()
    xs = runs(chk, exe, 'attach', 800, 10000) + runs(chk, exe, 'many', 160, 3000)
    if not chk.violations:
        service(chk, exe, xs, 'listeners')


def L04(chk):
    exe = exe_log()
    design(chk, [('alg_%d_%d' % (n, m), 'LogAlg', {'Controllers': set(range(1, n + 1)), 'Messages': m, 'Calls': k},
                  ['InOrder', 'StoppedMeansStopped'], ['Served', 'Returns'])
                 for n, m, k in (((1, 3, 4), (2, 2, 2)) if chk.quick else ((1, 4, 6), (2, 3, 3), (3, 2, 2)))])
    xs = runs(chk, exe, 'service', 1000, 10000) + systematic(chk, exe, 'tiny', 1600, 16000, 3)
    if not chk.violations:
        service(chk, exe, xs, 'starting and stopping')


def L05(chk):
    exe = exe_log()
    delivery_design(chk, Listeners={1}, PoolSize=2, MaxMessages=3, MaxAllocated=2, MaxChanges=2 if chk.quick else 4)
    xs = runs(chk, exe, 'pool', 300, 3000) + runs(chk, exe, 'burst', 8, 48, per=1, args=('-A',))
    if not chk.violations:
        service(chk, exe, xs, 'messages', pool=True)


def L06(chk):
    exe = exe_log()
    base = chk.seed * 1000003
    n = 160 if chk.quick else 2500
    xs = execute(chk, exe, [(s, n // 3 if s == 'many' else n, base, 4, None) for s in ('all', 'filter', 'attach', 'service', 'order', 'many', 'stream', 'slines')])
    if not chk.violations:
        races(chk, exe, (), xs)


def L07(chk):
    exe = exe_log()
    base = chk.seed * 1000003
    xs = execute(chk, exe, [(s, 1200 if chk.quick else 12000, base, 3, None) for s in ('stream', 'slines')])
    if not chk.violations:
        against(chk, exe, (), xs, 'LogStreamTrace', ev_project(), 'lines and streams')
