"""Checks of code values and items: V01..V03, by replaying behaviours of spec/CodeGen, ItemGen and ItemConvGen."""
import os
from vlib import *

FLAGS = ['-O1', '-g1', '-w'] + SAN


def harness(code):
    src = os.path.join(HARNESS, 'value_replay.cpp')
    objs = [('code_replay', src, FLAGS + ['-DCODE']) if code else ('item_replay', src, FLAGS)]
    objs += [('v_' + os.path.basename(f)[:-4], f, FLAGS) for f in engine_sources(('code', 'compiler') if code else ('handlerfactory',))]
    r = build(objs, [('values', [o[0] for o in objs], SAN)])
    return r['values']


def generate(chk, name, module, consts, sim=0, depth=0, k=0, **kw):
    if sim:
        r = tlc(chk, name, module, consts, simulate=sim, depth=depth, seed=chk.seed * 1000 + k, **kw)
    else:
        r = tlc(chk, name, module, consts, **kw)
    tlc_ok(chk, r, name)
    chk.states += r.distinct or r.generated
    chk.transitions += r.generated
    return r.out


def behaviours(chk, exe, jobs, what):
    files = parallel([lambda j=j: generate(chk, **j) for j in jobs])
    chk.notes['behaviours_generated'] = sum(count_traces(f) for f in files)
    for f in files[:1] + files[-1:]:
        t = get_trace(f, 3)
        if t:
            chk.sample(t[:600])
    parts = [p for f in files for p in (split(chk, f, 8) if count_traces(f) > 4000 else [f])]
    replay_files(chk, exe, parts, what=what, cut=1)


def texts(*ps):
    return tuple(tuple(p) for p in ps)


SOURCES = [texts(), texts(('a', 1)), texts(('0', 1)), texts((' a\n', 1)), texts(('b', 15)), texts(('c', 16)), texts(('d', 31)), texts(('e', 40)), texts(('@', 1)), texts(('a@b', 1), ('c', 20)),
           texts(('~', 3)), texts(('f', 998)), texts(('g', 999)), texts(('h', 1000)), texts(('i', 1001)), texts(('jk', 2100)), texts(('l', 70000), ('@', 2)), texts(('x = 1;\n', 30))]


def V01(chk):
    exe = harness(True)
    ops = ['new', 'new', 'empty', 'compile', 'recompile', 'copy', 'copy', 'assign', 'assign', 'move', 'moveassign', 'moveassign', 'swap', 'destroy', 'pass', 'list', 'churn']
    streams = {(t,) for t in ('', ' ', 'a', 'word', ' a b', '\n\tx\ny', '  0')} | {('', 'a', 40, ' b'), (' ', 'bc', 1500, '\nd e'), ('\n', '@~', 9, ''), ('', 'f', 1000, ''),
        ('  ', 'ab', 5000, ' c'), ('\t', 'w', 70001, ''), ('', 'xyz', 400000, '\n')}
    def c(**kw):
        d = {'Slots': {1, 2, 3}, 'Ops': ops, 'Sources': set(SOURCES), 'Streams': streams, 'Depth': 60, 'Sim': True}
        d.update(kw)
        return d
    gen = dict(spec='GenSpec', invariants=['Whole', 'EmitSim'])
    full = dict(spec='GenSpec', invariants=['Whole'], action_constraints=['EmitStep'], view='View')
    n = 600 if chk.quick else 6000
    small = set([SOURCES[1], SOURCES[7], SOURCES[9]]) if chk.quick else set([SOURCES[0], SOURCES[1], SOURCES[7], SOURCES[9], SOURCES[13]])
    behaviours(chk, exe,
               [dict(name='sim%d' % i, module='CodeGen', consts=c(Slots=set(range(1, 3 + i % 3))), sim=n, depth=60, k=i, **gen) for i in range(6)] +
               [dict(name='full', module='CodeGen', consts=c(Sim=False, Sources=small, Streams={(' ab c',)}, Slots={1, 2} if chk.quick else {1, 2, 3},
                                                             Ops=[o for o in sorted(set(ops)) if o not in ('list', 'pass', 'churn')]), **full),
                dict(name='streams', module='CodeGen', consts=c(Sim=False, Slots={1}, Ops=['compile'], Depth=1,
                                                                Streams=Raw('{<<s>> : s \\in Strings({"a", "b", " ", "\\t", "\\n"}, %d)}' % (5 if chk.quick else 6))), **full)],
               'Code:')
    chk.assumptions = ['memory is there for every value (the operations are declared not to throw)']


VALUES = [('bool', 'true'), ('bool', 'false'), ('char', '65'), ('byte', '255'), ('int32', '-7'), ('uint32', '4294967295'), ('int64', '-9223372036854775808'), ('int64', '9223372036854775807'),
          ('uint64', '1000000'), ('float', '-2.75'), ('float', '0'), ('float', '1234567'), ('cstr', ''), ('cstr', 'nil'), ('cstr', '12 monkeys'), ('str', ''), ('str', 'short'), ('str', ' -42x'),
          ('str', 'exactly16chars..'), ('str', 'a longer text that does not fit in the object, ' * 2), ('cstr', '7' + 'z' * 100), ('big', '0'), ('big', '-12.5'), ('big', '123456789012345678.123456789'), ('str', '4@2~'), ('str', 'longer than sixteen @ characters')]


def V02(chk):
    exe = harness(False)
    ops = ['new', 'new', 'new', 'nil', 'copy', 'copy', 'assign', 'assign', 'assign', 'set', 'set', 'destroy', 'swap', 'pass', 'bad', 'badget', 'badset', 'churn', 'nocopy', 'noassign', 'nonew',
           'push', 'pushv', 'emplace', 'pop', 'peek', 'top', 'discard', 'clear', 'vpush', 'vinsert', 'verase', 'vreverse', 'vself', 'vcopy', 'vclear']
    def c(**kw):
        d = {'Slots': {1, 2, 3, 4}, 'Ops': ops, 'Values': set(VALUES), 'MaxContents': 9, 'Depth': 80, 'Sim': True}
        d.update(kw)
        return d
    gen = dict(spec='GenSpec', invariants=['TypeOK', 'EmitSim'])
    full = dict(spec='GenSpec', invariants=['TypeOK'], action_constraints=['EmitStep'], view='View')
    n = 350 if chk.quick else 4000
    few = set(VALUES[i] for i in ((0, 19, 22) if chk.quick else (0, 4, 9, 19, 22)))
    variables = ['new', 'nil', 'copy', 'assign', 'set', 'destroy', 'swap', 'nocopy', 'noassign', 'churn']
    behaviours(chk, exe,
               [dict(name='sim%d' % i, module='ItemGen', consts=c(), sim=n, depth=80, k=i, **gen) for i in range(6)] +
               [dict(name='full', module='ItemGen', consts=c(Sim=False, Values=few, Slots={1, 2, 3}, Ops=variables), **full),
                dict(name='box', module='ItemGen', consts=c(Sim=False, Values=set(VALUES[i] for i in (1, 19, 22)), Slots={1}, MaxContents=3 if chk.quick else 4,
                                                            Ops=['new', 'set', 'push', 'pop', 'peek', 'top', 'discard', 'clear']), **full),
                dict(name='vec', module='ItemGen', consts=c(Sim=False, Values=set(VALUES[i] for i in (1, 19, 22)), Slots={1}, MaxContents=3 if chk.quick else 4,
                                                            Ops=['new', 'set', 'vpush', 'vinsert', 'verase', 'vreverse', 'vself', 'vcopy', 'vclear']), **full)],
               'Item:')


def V03(chk):
    exe = harness(False)
    jobs = [dict(name='conv', module='ItemConvGen', consts={'Alphabet': set('0579-+ x\t.'), 'Longest': 4 if chk.quick else 5, 'Random': 400 if chk.quick else 6000},
                 invariants=['Emit', 'Laws'], view='View', extra=['-seed', str(chk.seed)], mem='6g')]
    behaviours(chk, exe, jobs, 'Item:')
    chk.assumptions = ['floating point values of at most 15 digits that do not lie exactly between two renderings; integers and truncated values within the signed 64-bit range']
