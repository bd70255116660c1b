"""Checks of the unit-test framework: U01..U04, by replaying behaviours of spec/FutGen."""
import os
import re
from vlib import *
from check_value import generate

FLAGS = ['-O1', '-g1', '-w'] + SAN


def harness():
    objs = [('fut_replay', os.path.join(HARNESS, 'fut_replay.cpp'), FLAGS)] + \
           [('f_' + os.path.basename(f).split('.')[0], f, FLAGS) for f in fut_sources()]
    return build(objs, [('fut', [o[0] for o in objs], SAN + ['-Wl,--wrap=main', '-lexpat'])])['fut']


PLACES = {'n': '\n', 't': '\t', 'r': '\r', '1': '\x01', 'e': '\u00e9', 'u': '\U0001f426', 'q': '"', 'a': "'", 'b': '\\', '27': '\x1b', 'w': '\u4e2d', 'f': '\uffff', 'g': '\ufffe', 'h': '\ufffd'}


def expand(s):
    def f(m):
        k = m.group(1)
        if k[0] == '*':
            n, t = k[1:].split(':', 1)
            return int(n) * t
        return PLACES[k]
    return re.sub(r'\{([^}]*)\}', f, s)


# ---- names of components and cases: plain ones, and awkward ones
PLAIN = [('Core', 'starts'), ('Core', 'stops'), ('Core', 'runs'), ('Alpha', 'starts'), ('Alpha', 'b'), ('zeta', 'starts'), ('B', 'a'), ('B', 'aa'), ('Core2', 'stops')]
AWKWARD = [('', ''), ('', 'x'), ('<a>', '&amp;'), ('<a>', '"q{q}{a}'), ('{e}{u}', '{w}'), ('A&B', 'a<b && c>d'), ('long{*60:m}', 'n{*120:o}'), ('long{*60:m}', 'p{*40:q}'), ('two words', 'with {t}tab'),
           ('tail-', '{b}{n}newline'), ('c{1}trl', '{27}[31m'), ('A', ']]>'), ('A', '<!-- -->'), ('%s', '%n%d'), ('{g}{h}', 'x{f}')]


def line(args=(), mode='main', argv0='/some/where/program.exe'):
    base = argv0.split('/')[-1].split('.')[0]
    return {'mode': mode, 'argv0': argv0, 'base': base, 'args': list(args)}


# ---- actions
GOOD = [('out', 'hello '), ('out', 'two{n}lines{n}'), ('outn', 'run '), ('int', 'EQ', 3, 3), ('str', 'EQ', 'a b', 'a b'), ('flt', 'EQ', '1.5', 150000, '1.50001', 150001), ('bool', 'TRUE', '1'),
        ('bool', 'FALSE', '0'), ('thr', 'runtime', 'runtime'), ('thr', 'exception', 'logic'), ('any', 'int'), ('no', 'none')]
BAD = [('int', 'GT', 4, 4), ('str', 'NE', 'x{q}', 'x{q}'), ('flt', 'EQ', '1', 100000, '1.5', 150000), ('bool', 'TRUE', '0'), ('bool', 'FALSE', '1'), ('thr', 'runtime', 'none'), ('thr', 'runtime', 'logic'),
       ('thr', 'logic', 'int'), ('any', 'none'), ('no', 'runtime'), ('no', 'int'), ('check', '/x/', 'a.cpp', '7', 'a < b', ''), ('check', '', 'b.cpp', '0', 'a == b', 'c & "d"'),
       ('direct', '/d/', 'e.cpp', '123456', 'because'), ('throw', 'thrown & gone'), ('throwint',), ('err', 'oops '), ('err', 'x{n}')]
CHANGING = [(w, a) for w in ('first', 'later') for a in (('int', 'EQ', 1, 2), ('throw', 'this time'), ('err', 'this time'), ('check', '/y/', 'z.cpp', '8', 'this time', ''), ('thr', 'logic', 'none'), ('out', 'this time '))]
# what a case may do to the streams: it ends with the case
STREAMS = [('fmt', 'out'), ('fmt', 'err'), ('punct', 'out'), ('width', 'err')] + [('lose', s, h) for s in ('out', 'err') for h in ('bad', 'fail', 'null', 'away', 'none')]
TAILS = [()] * 6 + [(('fail', 'no way'),), (('fail', '<{q}&>'),)]


def base(sim, comps, **kw):
    order = sorted(set(comps), key=lambda c: expand(c).encode())
    c = {'Programs': set(), 'CompOrder': order, 'File': 'fut_replay.cpp', 'FailReturns': False,
         'Sim': sim, 'Shapes': [(1, 2, 1)], 'Acts': GOOD, 'Tails': TAILS, 'Names': set(), 'Lines': [line()]}
    c.update(kw)
    return c


INVS = ['TypeOK', 'Sound', 'NotForgotten', 'Ordered', 'Complete', 'NothingRun', 'Silent', 'Captured']


def sim(chk, name, k, names, n, depth=400, **kw):
    return dict(name=name, module='FutGen', consts=base(True, [x[0] for x in names], Names=set(names), **kw), spec='GenSpec', invariants=INVS, sim=n, depth=depth, k=k)


def full(name, programs, comps, **kw):
    return dict(name=name, module='FutGen', consts=base(False, comps, Programs=Raw(programs), **kw), spec='GenSpec', invariants=INVS)


def program(args='<<>>', cases='<<>>', mode='main', argv0='prog', b='prog'):
    return '[mode |-> "%s", argv0 |-> "%s", base |-> "%s", args |-> %s, cases |-> %s]' % (mode, argv0, b, args, cases)


def case(comp, name, setup='<<>>', body='<<>>', tear='<<>>'):
    return '[comp |-> "%s", name |-> "%s", setup |-> %s, body |-> %s, tear |-> %s]' % (comp, name, setup, body, tear)


def upto(acts, n):
    """All scripts of at most n of the actions."""
    s = tla(set(acts))
    return '({<<>>} \\union %s)' % ' \\union '.join('{[j \\in 1..%d |-> s[j]] : s \\in [1..%d -> %s]}' % (m, m, s) for m in range(1, n + 1))


def macro_cases(scripts):
    """The cases declared with the macros, in the order of the harness."""
    names = [('Fixture', 'second'), ('Plain', 'a'), ('Fixture', 'first'), ('Another', 'z'), ('Plain', 'b')]
    return '<<%s>>' % ', '.join(case(c, n, *([s] if isinstance(s, str) else s) if c == 'Fixture' and not isinstance(s, str) else ('<<>>', s)) for (c, n), s in zip(names, scripts))


def run_all(chk, letter, jobs, what, each=False):
    exe = harness()
    files = parallel([lambda j=j: generate(chk, **j) for j in jobs])
    chk.notes['behaviours_generated'] = chk.notes.get('behaviours_generated', 0) + sum(count_traces(f) for f in files)
    chk.notes.setdefault('families', {}).update({j['name']: count_traces(f) for j, f in zip(jobs, files)})
    for f in files[:1] + files[-1:]:
        t = get_trace(f, 3)
        if t:
            chk.sample(t[:600])
    parts = [p for f in files for p in (split(chk, f, 8 if not each else count_traces(f)) if each or count_traces(f) > 300 else [f])]
    replay_files(chk, exe, [p for p in parts if count_traces(p)], args=['-m', letter], what=what)


ARGV0 = ['/some/where/program.exe', 'prog', './x.y.z', '../a b', '/p/{e}<&>.t']
LINES = [line(), line(['-v', '5'], argv0='prog'), line(['-v', '3'], argv0='./x.y.z'), line(['-q']), line(['-c']), line(['-c', '-v', '5']), line(['-v', '1']), line(['-e', '-v', '4'], argv0='../a b'),
         line(['-t', '?']), line(['-t', '?', '-t', '?', '-v', '2']), line(['-v', '3', '-t', '?', '-t', '?', '-t', '?']), line(['-v', '0', '-t', '?']), line(['-n', 'a name', '-i', 'an id'])]
SINGLES = [line(['-t', '?'], 'singles'), line(['-t', '?', '-t', '?', '-t', '?'], 'singles'), line(['-v', '5', '-t', '?', '-t', '?'], 'singles'), line(['-t', '?', '-t', '?'], 'both'), line(['-v', '4', '-t', '?', '-c'], 'both'),
           line(['-v', '5', '-t', '?', '-t', '?'], 'both')]
MACRO_ACTS = [('out', 'said '), ('outn', 'run '), ('bool', 'TRUE', '1'), ('int', 'GE', 2, 1), ('no', 'none'), ('bool', 'TRUE', '0'), ('int', 'GE', 1, 2), ('no', 'logic'), ('throw', 'thrown'), ('throwint',), ('err', 'oops')]


def macros(name, args='<<>>', acts=MACRO_ACTS, n=1):
    """Programs declared with the macros of fut.h, with the scripts of two cases varied."""
    e = '<<>>'
    one = upto(acts, n)
    cs = lambda a, b, c, d: '<<%s>>' % ', '.join([case('Fixture', 'second', a, b, d), case('Plain', 'a', e, c), case('Fixture', 'first', e, '<<<<"out", "first">>>>'), case('Another', 'z', e, '<<<<"int", "GE", 1, 1>>>>'),
                                                   case('Plain', 'b', e, d)])
    return full(name, '{%s : b \\in %s, c \\in %s} \\union {%s : a \\in %s, d \\in %s}' %
                (program(args, cs(e, 'b', 'c', e), 'macro'), one, one, program(args, cs('a', '<<<<"out", "in">>>>', e, 'd').replace(case('Plain', 'b', e, 'd'), case('Plain', 'b', e, e)), 'macro'), one, one),
                ['Fixture', 'Plain', 'Another'])


# one case run again and again, one by one
AGAIN = '{%s : v \\in {"5", "2"}, s \\in %%(acts)s, b \\in %%(acts)s, t \\in %%(acts)s}' % program('<<"-v", v, "-t", "A::a", "-t", "A::a", "-t", "A::a">>', '<<%s>>' % case('A', 'a', 's', 'b', 't'), 'singles')


def many(name, counts, args='<<"-q">>', how='<<<<"check", "/a/", "b.c", "3", "no", "">>>>'):
    """Programs of n cases of which the first m fail: more than fit a byte, as an exit status is."""
    return full(name, '{%s : n \\in %s}' % (program(args, '[j \\in 1..n[2] |-> [comp |-> IF j %% 100 = 7 THEN "Other" ELSE "Many", name |-> ToString(j), setup |-> <<>>, body |-> IF j <= n[1] THEN %s ELSE <<>>, tear |-> <<>>]]' % how),
                                              tla(set(counts))), ['Many', 'Other'])


def streams(acts, args):
    """A case that leaves a stream in another state, and what comes after it."""
    acts = tla(set(acts))
    x = tla(set(STREAMS))
    return full('streams', '{%s : v \\in %s, x \\in %s, a \\in %s, b \\in %s}' %
                (program('v', '<<%s, %s>>' % (case('A', 'a', body='<<x, a>>'), case('B', 'b', '<<<<"outn", "run">>>>', '<<b>>'))), args, x, acts, acts), ['A', 'B'])


def U01(chk):
    q = chk.quick
    n = 60 if q else 700
    acts = GOOD + BAD
    few = [('out', 'x'), ('bool', 'TRUE', '1'), ('int', 'EQ', 1, 2), ('thr', 'runtime', 'none'), ('no', 'logic'), ('throw', 'e'), ('throwint',), ('err', 'z'), ('thr', 'exception', 'runtime')]
    if not q:
        few += [('check', '/x/', 'a.cpp', '7', 'a < b', 'c'), ('direct', '/d/', 'e.cpp', '99', 'because')]
    again = [('outn', 'n'), ('err', 'wrong'), ('any', 'none'), ('throw', 't')] + CHANGING
    ints = [-2147483647, -1, 0, 1, 2, 2147483647]
    table = [('int', m, a, b) for m in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE') for a in ints for b in ints]
    strs = ['', 'a', 'b', 'ab', 'a ', '{e}', '{q}', '{n}']
    table += [('str', m, a, b) for m in ('EQ', 'NE') for a in strs for b in strs]
    flts = [('0', 0), ('0.5', 50000), ('0.50002', 50002), ('0.49993', 49993), ('0.50009', 50009), ('0.50011', 50011), ('-0.5', -50000), ('-0.50009', -50009), ('1', 100000), ('1.00005', 100005), ('-1', -100000),
            ('1000', 100000000), ('nan', 0)]
    table += [('flt', m, a[0], a[1], b[0], b[1]) for m in ('EQ', 'NE') for a in flts for b in flts if abs(a[1] - b[1]) != 10]
    table += [('bool', m, b) for m in ('TRUE', 'FALSE') for b in '01'] + [('thr', a, b) for a in ('runtime', 'logic', 'exception') for b in ('none', 'runtime', 'logic', 'int')]
    table += [(m, b) for m in ('any', 'no') for b in ('none', 'runtime', 'logic', 'int')]
    table += [('fail', 'why'), ('fail', ''), ('check', '/a/b/', 'c.cpp', '10', 'x', 'y'), ('check', '', 'c.cpp', '10', 'x', ''), ('direct', '', 'c.cpp', '10', 'x'), ('throw', ''), ('throw', 'w')]
    jobs = [sim(chk, 'sim%d' % i, i, PLAIN, n, Acts=acts + GOOD * (i % 3) + CHANGING + STREAMS * (i % 2), Tails=TAILS, Shapes=[(1, 2, 1), (0, 1, 0), (0, 4, 0), (2, 4, 2)], Lines=LINES) for i in range(3)]
    jobs += [sim(chk, 'singles', 9, PLAIN[:3], n, Acts=acts + CHANGING * 2, Shapes=[(1, 2, 1), (0, 1, 0)], Lines=SINGLES)]
    scripts = upto(few, 1)
    jobs += [full('scripts', '{%s : s \\in %s, b \\in %s, t \\in %s}' % (program(cases='<<%s>>' % case('A', 'a', 's', 'b', 't')), scripts, upto(few, 2), scripts), ['A']),
             full('macro', '{%s : a \\in %s}' % (program(cases='<<%s>>' % case('A', 'a', body='<<a>>')), tla(set(table))), ['A']),
             full('thensome', '{%s : a \\in %s, z \\in %s}' % (program(cases='<<%s>>' % case('A', 'a', body='<<a, <<"bool", "TRUE", "1">>, <<"out", "after">>>>', tear='<<z>>')), tla(set(t for t in table if t[0] != 'fail')), tla(set(few))), ['A']) if not q else
             full('thensome', '{%s : a \\in %s}' % (program(cases='<<%s>>' % case('A', 'a', body='<<a, <<"bool", "TRUE", "1">>, <<"out", "after">>>>')), tla(set(t for t in table if t[0] != 'fail'))), ['A']),
             full('two', '{%s : a \\in %s, b \\in %s, v \\in {<<>>, <<"-c">>, <<"-q">>}}' % (program(args='v', cases='<<%s, %s>>' % (case('A', 'a', body='<<a>>'), case('B', 'b', body='<<b>>'))), tla(set(few)), tla(set(few))), ['A', 'B']),
             full('again', AGAIN % {'acts': upto(again, 1)}, ['A']), macros('declared'), streams(few, '{<<>>, <<"-c">>}'), many('many', [(255, 255), (256, 256), (256, 260)] + ([] if q else [(257, 257), (512, 512), (0, 300), (1, 300)])),
             many('errors', [(256, 256)], how='<<<<"throw", "e">>>>'), many('outputs', [(256, 256)], how='<<<<"err", "e">>>>')]
    run_all(chk, 'v', jobs, 'FUT:')
    if chk.violations:
        return
    late = [('out', 'after'), ('bool', 'TRUE', '0'), ('throw', 'late')]
    run_all(chk, 've', [full('fail', '{%s : b \\in %s}' % (program(cases='<<%s>>' % case('A', 'a', body='<<<<"fail", "stop here">>>> \\o b')), upto(late, 1 if q else 2)), ['A'], FailReturns=True)], 'FUT: FAIL() in a test:', each=True)


def U02(chk):
    q = chk.quick
    n = 60 if q else 700
    acts = GOOD + BAD
    tokens = ['-q', '-c', '-e', '-h', '-v', '3', '6', '-1', '-t', 'A::a', 'A::b', 'B::a', 'A::', '-x', '{x}', '-n', '-i', '--', ''] if q else \
             ['-q', '-c', '-h', '-v', '3', '6', '-t', 'A::a', 'B::a', 'a', '-x', '{x}', '-i', '']
    cases = '<<%s>>' % ', '.join([case('B', 'a', body='<<<<"out", "one">>>>'), case('A', 'a', body='<<<<"err", "two">>>>'), case('A', 'b')])
    lines = [line(['-t', '?'] * k) for k in range(1, 6)] + [line(['-t', '?', '-q', '-t', '?', '-e', '-v', '4', '-t', '?'])]
    jobs = [sim(chk, 'sim%d' % i, i, PLAIN + (AWKWARD if i == 2 else []), n, Acts=acts + GOOD * i, Shapes=[(1, 2, 1), (0, 1, 0), (1, 3, 1)], Lines=LINES + lines) for i in range(3)]
    jobs += [sim(chk, 'singles', 9, PLAIN[:3], n, Acts=acts + CHANGING * 2, Shapes=[(1, 2, 1), (0, 1, 0)], Lines=SINGLES)]
    jobs += [full('lines', '{%s : v \\in UNION {[1..m -> %s] : m \\in 0..%d}}' % (program(args='v', cases=cases), tla(set(tokens)), 3 if q else 4), ['A', 'B'])]
    jobs += [macros('declared', '<<"-v", "3">>'), macros('declared2', '<<"-t", "Plain::b", "-t", "Fixture::second", "-t", "Plain::a">>', acts=MACRO_ACTS[::2]), many('many', [(3, 300)])]
    # every order and choice of cases
    names = [('B', 'a'), ('A', 'a'), ('C', 'z'), ('A', 'b')]
    fixed = '<<%s>>' % ', '.join(case(c, m, '<<<<"out", "s">>>>', '<<<<"out", "%s%s">>>>' % (c, m), '<<<<"out", "t">>>>') for c, m in names)
    picks = tla(set('%s::%s' % x for x in names))
    jobs += [full('picks', '{%s : p \\in UNION {[1..m -> %s] : m \\in 0..%d}}' % (program(args='[j \\in 1..(2 * Len(p)) |-> IF j % 2 = 1 THEN "-t" ELSE p[(j + 1) \\div 2]]'.replace('%', '%%') % () , cases=fixed), picks, 4 if q else 5), ['A', 'B', 'C'])]
    few = [('out', 'x'), ('int', 'EQ', 1, 2), ('any', 'none'), ('throw', 'e'), ('throwint',), ('err', 'z')]
    one = upto(few, 1 if q else 2)
    jobs += [full('phases', '{%s : s \\in %s, b \\in %s, t \\in %s}' % (program(cases='<<%s, %s>>' % (case('A', 'a', 's', 'b', 't'), case('A', 'b'))), one, one, one), ['A'])]
    run_all(chk, 'e', jobs, 'FUT:')


def U03(chk):
    q = chk.quick
    n = 60 if q else 700
    acts = GOOD + BAD
    again = [('outn', 'n'), ('err', 'wrong')] + [(w, a) for w in ('first', 'later') for a in (('throw', 'e'), ('out', 'now'), ('err', 'wrong'), ('int', 'EQ', 1, 2))]
    out = [('out', 'plain'), ('outn', 'number '), ('err', 'wrong'), ('int', 'EQ', 1, 2), ('throw', 'e')]
    more = out + [('throwint',), ('no', 'int'), ('out', '{n}'), ('bool', 'TRUE', '1')]
    levels = '{<<"-v", ToString(v)>> : v \\in 0..5}'
    args = '(%s \\union {<<"-c">> \\o x : x \\in %s} \\union {<<"-q">>})' % (levels, levels)
    order = [line(['-v', str(v), '-t', '?', '-t', '?', '-t', '?']) for v in range(6)] + [line(['-v', str(v)]) for v in range(6)] + [line(['-c', '-v', str(v), '-t', '?', '-t', '?']) for v in range(6)]
    jobs = [sim(chk, 'sim%d' % i, i, PLAIN + (AWKWARD if i == 2 else []), n, Acts=acts + GOOD * i + STREAMS * i, Shapes=[(1, 2, 1), (0, 1, 0), (1, 3, 1)], Lines=LINES + order) for i in range(3)]
    jobs += [sim(chk, 'singles', 9, PLAIN[:3], n, Acts=acts + CHANGING * 2 + STREAMS, Shapes=[(1, 2, 1), (0, 1, 0)], Lines=SINGLES)]
    one, two = upto(more, 1), upto(out, 1 if q else 2)
    jobs += [full('again', AGAIN % {'acts': upto(again if q else again + CHANGING[1:10:2], 1)}, ['A']), full('one', '{%s : v \\in %s, b \\in %s, t \\in %s}' % (program(args='v', cases='<<%s>>' % case('A', 'a', '<<<<"out", "setting up">>>>', 'b', 't')), args, upto(more, 2) if not q else one, one if not q else two), ['A']),
             full('two', '{%s : v \\in %s, a \\in %s, b \\in %s}' % (program(args='v', cases='<<%s, %s>>' % (case('A', 'a', body='a'), case('B', 'b', body='b', tear='<<<<"out", "down">>>>'))), args, two, two), ['A', 'B']),
             full('three', '{%s : v \\in %s, a \\in %s, b \\in %s, c \\in %s}' % (program(args='v', cases='<<%s, %s, %s>>' % (case('B', 'a', body='a'), case('B', 'b', body='b'), case('A', 'b', body='c'))),
                                                                                 '{<<"-v", "2">>, <<"-v", "1", "-t", "B::b", "-t", "A::b">>, <<"-t", "B::b", "-t", "B::b">>}', two, two, two), ['A', 'B']),
             streams(out + [('int', 'EQ', 1, 1), ('out', '')] + ([] if q else more), args if not q else '{<<"-v", "2">>, <<"-v", "5">>, <<"-c">>, <<"-v", "1", "-t", "B::b", "-t", "A::a">>}'),
             macros('declared', '<<"-v", "5">>'), macros('declared2', '<<"-c">>', acts=MACRO_ACTS[::3] + STREAMS), many('many', [(3, 130)] + ([] if q else [(300, 300)]), '<<"-v", "5">>')]
    run_all(chk, 'o', jobs, 'FUT:')


def U04(chk):
    q = chk.quick
    n = 60 if q else 700
    texts = ['plain', '', '&', '<', '>', '{q}', '{a}', '&amp;', ']]>', '<![CDATA[', '<!--', '{e}{u}{w}', 'a{n}b', '{t}x{r}y', '{1}{27}', '{*3000:long }', ' spaces  ', '%s', '&#10;', '</failure>', '<?xml?>', '{b}n', '{f}a{g}', 'tail{f}', '{h}{f}{f}']
    acts = GOOD + [('throw', t) for t in texts] + [('check', '/d/', 'f%s.cpp' % t.replace('/', ''), '12', t, u) for t, u in zip(texts, texts[3:])] + [('direct', '<&>/', '{q}%s' % t, '3', t) for t in texts] + BAD
    tails = [()] * 5 + [(('fail', t),) for t in texts]
    lines = [line(['-x', '{x}'], argv0=a) for a in ARGV0] + [line(['-q', '-x', '{x}', '-n', t, '-i', u]) for t, u in zip(texts, texts[5:])] + [line(['-x', '{x}', '-t', '?']), line(['-t', '?', '-t', '?', '-x', '{x}'])]
    jobs = [sim(chk, 'sim%d' % i, i, [PLAIN, AWKWARD, PLAIN + AWKWARD][i % 3], n, Acts=acts + GOOD * 3 * (i % 2), Tails=tails, Shapes=[(1, 2, 1), (0, 1, 0), (0, 3, 0)], Lines=lines + LINES[:2] + LINES[5:6]) for i in range(5)]
    jobs += [sim(chk, 'both', 9, PLAIN, n, Acts=acts, Tails=tails, Shapes=[(0, 2, 0)], Lines=[line(['-x', '{x}', '-t', '?'], 'both'), line(['-x', '{x}', '-t', '?'], 'singles')])]
    # every text in every place
    tx = tla(set(texts))
    one = program(args='<<"-q", "-x", "{x}", "-n", a, "-i", b>>', cases='<<%s>>' % case('A', 'a', body='<<<<"throw", b>>>>'))
    named = '[mode |-> "main", argv0 |-> "prog", base |-> "prog", args |-> <<"-q", "-x", "{x}">>, cases |-> <<[comp |-> a, name |-> b, setup |-> <<>>, body |-> c, tear |-> <<>>]>>]'
    jobs += [full('texts', '{%s : a \\in %s, b \\in %s}' % (one, tx, tx), ['A']),
             full('names', '{%s : a \\in %s, b \\in %s, c \\in {<<>>, <<<<"check", "/d/", "f.c", "77", "what", "that">>>>}}' % (named, tx, tx), texts),
             full('outcomes', '{%s : a \\in %s, b \\in %s, c \\in %s, d \\in %s}' % (program(args='<<"-x", "{x}">>', cases='<<%s, %s, %s, %s>>' % (case('B', 'a', body='a'), case('A', 'b', body='b'), case('A', 'c', body='c'), case('B', 'd', body='d'))),
                  *[upto([('int', 'EQ', 1, 2), ('throw', 'e'), ('err', 'z'), ('out', 'x')][:3 if q else 4], 1)] * 4), ['A', 'B']),
             # a program that has made the locale another one
             full('locale', '{%s : a \\in %s, s \\in {<<"global">>, <<"punct", "out">>, <<"fmt", "out">>}}' % (program(args='<<"-x", "{x}">>', cases='<<%s>> \\o [j \\in 1..13 |-> %s]' %
                  (case('A', 'a', body='<<s, a>>'), case('IF j = 13 THEN "B" ELSE "A"', 'ToString(j)', body='<<IF j = 12 THEN <<"out", "x">> ELSE a>>').replace('"IF', 'IF').replace('"A""', '"A"').replace('"ToString(j)"', 'ToString(j)'))),
                  tla({('int', 'EQ', 1, 2), ('throw', 'e'), ('err', 'z'), ('wait', 12345), ('check', '/x/', 'f.c', '1234', 'x', '')})), ['A', 'B']),
             macros('declared', '<<"-x", "{x}">>'), many('many', [(12, 103)] + ([] if q else [(300, 301)]), '<<"-x", "{x}">>')]
    run_all(chk, 'x', jobs, 'FUT:')
    chk.assumptions = ['texts are UTF-8; characters XML cannot represent may be replaced']


def U05(chk):
    q = chk.quick
    n = 60 if q else 700
    waits = [('wait', w) for w in (1, 7, 30, 250, 999, 1000, 1001, 59999, 3600000, 86400000, 90061001)]
    acts = GOOD[:4] + waits * 2
    ends = [('int', 'EQ', 1, 2), ('thr', 'runtime', 'none'), ('throw', 'e'), ('throwint',), ('err', 'oops'), ('thr', 'runtime', 'logic')]
    lines = [line(['-x', '{x}', '-v', str(v)]) for v in (0, 2, 5)] + [line(['-t', '?', '-t', '?']), line(['-t', '?', '-x', '{x}']), line(['-c', '-v', '2'])]
    jobs = [sim(chk, 'sim%d' % i, i, PLAIN[:4 + 2 * i], n, Acts=acts + ends * (i % 2), Shapes=[(1, 2, 1), (0, 1, 0), (2, 4, 2)], Lines=lines) for i in range(4)]
    jobs += [sim(chk, 'singles', 9, PLAIN[:3], n, Acts=acts + ends + [(w, a) for w in ('first', 'later') for a in waits[2:7] + ends[:1]], Shapes=[(1, 2, 1), (0, 2, 1)], Lines=SINGLES)]
    inv = INVS + ['Times']
    for j in jobs:
        j['invariants'] = inv
    # every way through a case, time passing in every part of it; the case itself looks at its time
    s = [(), (('wait', 300),), (('wait', 20), ('throw', 'e')), (('wait', 20), ends[0])]
    b = [(), (('now',),)] + [(('wait', 4000), ('now',), ('wait', w), ('now',)) + e for w in (0, 1, 50000) for e in [()] + [(x,) for x in ends]]
    t = [(('took',),), (('took',), ('wait', 600000), ('took',))] + [(('wait', 600000),) + x for x in ((), (ends[2],), (ends[3],), (ends[0],))]
    pick = lambda x: tla(set(x))
    jobs += [full('streams', '{%s : s \\in %s, w \\in %s}' % (program('<<"-x", "{x}", "-v", "2">>', '<<%s, %s>>' % (case('A', 'a', body='<<s, w>>'), case('B', 'b', body='<<w, <<"now">>, w>>'))),
                                                           tla(set(STREAMS + [('global',)])), tla(set(waits))), ['A', 'B'])]
    jobs += [full('parts', '{%s : v \\in {<<"-x", "{x}", "-v", "5">>, <<"-c", "-x", "{x}">>}, s \\in %s, b \\in %s, t \\in %s}' % (program('v', '<<%s>>' % case('A', 'a', 's', 'b', 't')), pick(s), pick(b), pick(t)), ['A']),
             full('again', '{%s : v \\in {"5", "2"}, s \\in %s, b \\in %s, t \\in %s}' % (program('<<"-v", v, "-t", "A::a", "-t", "A::a", "-t", "A::a">>', '<<%s>>' % case('A', 'a', 's', 'b', 't'), 'singles'),
                                                                                       pick([()] + [((w, a),) for w in ('first', 'later') for a in [('wait', 30), ends[2]]]),
                                                                                       pick([(('wait', 4000), ('now',)) + x for x in [()] + [((w, a), ('now',)) for w in ('first', 'later') for a in [('wait', 50000)] + ends]]), pick(t[1:4])), ['A']),
             full('three', '{%s : a \\in %s, b \\in %s, c \\in %s}' % (program('<<"-x", "{x}">>', '<<%s, %s, %s>>' % (case('B', 'a', '<<<<"wait", 500>>>>', 'a'), case('A', 'b', body='b', tear='<<<<"wait", 7000>>>>'), case('B', 'c', body='c'))),
                                                                     *[pick([()] + [(('wait', w),) + x for w in ((2, 90000) if q else (2, 1500, 90000)) for x in ((), (ends[0],), (ends[2],))])] * 3), ['A', 'B'])]
    run_all(chk, 't', jobs, 'FUT:')
    chk.assumptions = ['the clock is replaced: time passes only where the programs say so']
