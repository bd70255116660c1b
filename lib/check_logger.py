"""Checks of the application-wide logger: G01..G03."""
from vlib import *
from weave import *
from check_sync import design

ENGINE = ['logsystem.cpp', 'logstream.cpp', 'logger.cpp', 'futex.cpp']
MINIMA = [('', 5, ()), ('_disabled', -1, ('LLDISABLE',)), ('_info', 3, ('LLINFO',)), ('_crit', 0, ('LLCRIT',)), ('_err', 1, ('LLERR',)),
          ('_warn', 2, ('LLWARN',)), ('_debug', 4, ('LLDEBUG',))]


def exe_logger(m=MINIMA[0]):
    return weave_build('logger_weave' + m[0], ['logger_weave.cpp'], ENGINE, ['-DFALCON_MIN_LOG_LEVEL=::falcon::' + n for n in m[2]])


def statements(chk, exe, xs, what, minimum=5):
    against(chk, exe, (), xs, 'LoggerTrace', ev_project(), what, consts={'MinLevel': minimum})


def G01(chk):
    exe = exe_logger()
    base = chk.seed * 1000003
    n = 1 if chk.quick else 12
    xs = execute(chk, exe, [('alone', 800 * n, base, 1, None), ('threads', 1000 * n, base, 4, None)])
    if not chk.violations:
        statements(chk, exe, xs, 'messages')
    if not chk.violations:
        races(chk, exe, (), [x for x in xs if x.scenario == 'threads'][:240 * n])


def G02(chk):
    exe = exe_logger()
    base = chk.seed * 1000003
    n = 1 if chk.quick else 12
    design(chk, [('filter', 'LogFilterDesign', {}, ['Restored', 'NothingLost', 'OnlyMatching', 'AllMatching'], [])])
    alone = execute(chk, exe, [('filters', 800 * n, base, 1, None)])
    both = execute(chk, exe, [('filters2', 400 * n, base, 4, None)])
    for xs, together in ((alone, False), (both, True)):
        if not chk.violations:
            against(chk, exe, (), xs, 'LogFilterTrace', ev_project(), 'category filter', consts={'Together': together})
    if not chk.violations:
        races(chk, exe, (), both[:240 * n])


def G03(chk):
    minima = MINIMA[:4] if chk.quick else MINIMA
    exes = parallel([lambda m=m: exe_logger(m) for m in minima])
    base = chk.seed * 1000003 + 500000
    for m, exe in zip(minima, exes):
        xs = execute(chk, exe, [('alone', 500 if chk.quick else 6000, base, 1, None)])
        if not chk.violations:
            statements(chk, exe, xs, 'statements, compiled at level %d' % m[1], m[1])
