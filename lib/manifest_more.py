"""Techniques and notes of the checks other than those of the stack."""
TECH, NOTE = {}, {}
WEAVE = ('The real code runs under a deterministic scheduler that serves the compiler\'s instrumentation calls (harness/weave): random, PCT and '
         'bounded systematic schedules of random scripts. ')
SEQ = ' Executions interleave sequentially (no hardware reordering is produced); orderings are judged by the memory model of spec/HB.tla. Bounded threads, calls and schedules.'
TECH['X01'] = 'TLA+: FutexAlg and RFutexAlg refine Lock (TLC); recorded executions checked by TLC against ExclusionTrace (one holder, happens-before between holders)'
NOTE['X01'] = WEAVE + SEQ
TECH['X02'] = 'TLA+: FutexAlg refines Lock, liveness under fairness (TLC); recorded executions checked against LockTrace (linearizable queries) and YieldTrace; livelock and deadlock detected by the scheduler'
NOTE['X02'] = WEAVE + 'Spurious failures of weak compare-and-exchange are not injected.' + SEQ
TECH['X03'] = 'TLA+: RFutexAlg refines the recursive Lock (TLC); every sequence of non-overlapping calls up to a depth generated from RFutexGen and replayed; recorded executions checked against LockTrace'
NOTE['X03'] = WEAVE + SEQ
TECH['X04'] = 'TLA+: recorded executions checked by TLC for linearizability against Atomics (AtomicTrace)'
NOTE['X04'] = WEAVE + SEQ
TECH['S01'] = 'TLA+: SingletonAlg (TLC); recorded executions checked against SingletonTrace and HB (no data race)'
NOTE['S01'] = WEAVE + SEQ
TECH['P08'] = 'TLA+: recorded executions checked by TLC for linearizability against PagedStack (StackTrace) and for data races against HB; deadlock detected by the scheduler'
NOTE['P08'] = WEAVE + 'Locks: std::mutex and Futex<1>.' + SEQ
TECH['L01'] = 'TLA+: LogDesign (order and accounting of LogSystem, TLC); recorded executions of concurrent logging checked by TLC against LogSystem (LogTrace)'
NOTE['L01'] = WEAVE + SEQ
TECH['L02'] = 'TLA+: behaviours of a listener generated by TLC from Category (expressions as trees with their meaning, CategoryGen) replayed on the real one; recorded executions with changing levels, enable flags and category filters checked by TLC against LogSystem (LogTrace)'
NOTE['L02'] = WEAVE + 'Expressions: characters, any, classes, groups, alternatives, repetitions, word and digit classes; concurrent changes with a fixed table of them.' + SEQ
TECH['L03'] = 'TLA+: recorded executions with listeners added, detached and dropped checked by TLC against LogSystem (LogTrace)'
NOTE['L03'] = WEAVE + 'Each listener is added at most once.' + SEQ
TECH['L04'] = 'TLA+: LogAlg (start, sleep, wake up, stop; safety and liveness, TLC); recorded executions, random and systematic, checked against LogSystem (LogTrace); deadlock and livelock detected by the scheduler'
NOTE['L04'] = WEAVE + SEQ
TECH['L05'] = 'TLA+: recorded executions with bursts beyond the pool, diagnostics and counts of live memory blocks checked by TLC against LogSystem (LogTrace with its pool); LogDesign (accounting, TLC)'
NOTE['L05'] = WEAVE + SEQ
TECH['L06'] = 'TLA+: recorded executions of the whole interface checked by TLC for data races against HB (HBTrace); deadlock detected by the scheduler'
NOTE['L06'] = WEAVE + SEQ
TECH['L07'] = 'TLA+: recorded executions of stream listeners whose streams are switched and released checked by TLC against LogStream (LogStreamTrace)'
NOTE['L07'] = WEAVE + 'Date and time are computed by the specification (Gregorian calendar, six time zones) from a clock the harness replaces.' + SEQ
TECH['G01'] = 'TLA+: recorded executions of random (nested, abandoned, formatted) log statements on several threads checked by TLC against Logger (LoggerTrace), which composes every message itself; data races against HB'
NOTE['G01'] = WEAVE + 'Statement shapes from a fixed set with random operands.' + SEQ
TECH['G02'] = 'TLA+: LogFilterDesign (TLC); recorded histories of filter, clear and level calls checked against LogFilter (LogFilterTrace); data races against HB'
NOTE['G02'] = WEAVE + 'Levels are set only while no filter is active; filters and categories from a fixed table.' + SEQ
TECH['G03'] = 'TLA+: recorded executions of log statements, built with several compile-time minima, checked by TLC against Logger (LoggerTrace)'
NOTE['G03'] = WEAVE + 'Quick builds four compile-time minima, thorough all seven.' + SEQ
REPLAY = ('Replayed under ASan/UBSan with counted memory. ')
TECH['V01'] = 'TLA+ (CodeGen), TLC: behaviours (random, and every transition for a few values; every short stream) replayed on Code and Compiler, every value rendered after each step, memory balance'
NOTE['V01'] = REPLAY + 'Bounded numbers of values and steps; texts from a table of lengths up to 70,002 characters.'
TECH['V02'] = 'TLA+ (ItemGen), TLC: behaviours over items in variables, a PagedStack and a vector, also with failing memory, replayed on Item, everything asked of every item after each step, memory balance'
NOTE['V02'] = REPLAY + 'Bounded numbers of items and steps; values from a table of every kind.'
TECH['V03'] = 'TLA+ (ItemRules: decimal rendering, truncation, leading integers), TLC: values enumerated and drawn with the answers the rules give, compared with Item and the handlers'
NOTE['V03'] = REPLAY + 'Boundary integers of every type, every string over a 10 letter alphabet up to a length, numbers of up to 15 digits.'
FUT = 'Each program runs in a process of its own, under ASan/UBSan, with the real main(). '
TECH['U01'] = 'TLA+ (Fut: the state machine of a test run), TLC: programs (every short script in every phase, every check macro with operand tables, random ones) run by the specification, then replayed on the framework; verdicts, positions, texts and exit codes compared'
NOTE['U01'] = FUT + 'Bounded scripts; operands from tables.'
TECH['U02'] = 'TLA+ (Fut), TLC: every command line up to a length over an alphabet of options, every selection, random programs; the sequence of set-ups, bodies and tear-downs and the exit code compared'
NOTE['U02'] = FUT + 'Command lines of at most three (quick) or four (thorough) words over 18 or 14 words.'
TECH['U03'] = 'TLA+ (Fut, which composes the whole standard output), TLC: programs with output in every phase, every verbosity, capture on and off; the output of the process compared'
NOTE['U03'] = FUT + 'Blank space and rules are not compared; the times are compared by U05.'
TECH['U04'] = 'TLA+ (Fut), TLC: programs with awkward texts in every place and every outcome; the report parsed (expat) and compared with the one the specification gives'
NOTE['U04'] = FUT + 'Texts from a table; characters that XML cannot represent are not compared.'
TECH['U05'] = 'TLA+ (Fut: time passes in the actions of the scripts), TLC: programs that wait in every part of a case; run under a clock of their own and every time they report compared'
NOTE['U05'] = FUT + 'The clock functions of the C library are replaced in the test process; times are compared up to the digits printed.'
