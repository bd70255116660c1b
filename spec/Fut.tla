---- MODULE Fut ----
(* A unit-test program: test cases with scripted set-up, body and tear-down, the command line, the run, and what it reports.
   A case is [comp, name, setup, body, tear]; a script is a sequence of actions (see Res).
   Texts hold place holders in braces for characters that are awkward here ({n}: newline, ...): they are opaque to the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Programs,   \* the programs and command lines to explore: a set of [cases, argv0, base, args, mode]
          CompOrder,  \* component names in their order
          File,       \* the source file the checks are in
          FailReturns \* FAIL() ends the function it is in, as documented
VARIABLES prog, st, opt, queue, k, ph, i, cur, evs, out, err, results, codes, plan
vars == <<prog, st, opt, queue, k, ph, i, cur, evs, out, err, results, codes, plan>>

\* ---- what one action does
Sym == [EQ |-> "==", NE |-> "!=", GT |-> ">", GE |-> ">=", LT |-> "<", LE |-> "<="]
Holds(m, a, b) == CASE m = "EQ" -> a = b [] m = "NE" -> a # b [] m = "GT" -> a > b [] m = "GE" -> a >= b [] m = "LT" -> a < b [] m = "LE" -> a <= b
Actually(v) == IF v = "" THEN "" ELSE " (Actually \"" \o v \o "\")"
What == [runtime |-> "a runtime error", logic |-> "a logic error", int |-> "Unknown error caught by falcon::testing framework"]
Matches(type, thrown) == type = thrown \/ (type = "exception" /\ thrown \in {"runtime", "logic"})
TypeName == [runtime |-> "std::runtime_error", logic |-> "std::logic_error", exception |-> "std::exception"]
Near(a, b) == a - b < 10 /\ b - a < 10        \* in units of 0.00001

Go == [k |-> "go", desc |-> "", file |-> "", line |-> "", stop |-> FALSE]
Throwing(d) == [Go EXCEPT !.k = "throw", !.desc = d, !.stop = TRUE]
Failing(d, f, l, s) == [k |-> "fail", desc |-> d, file |-> f, line |-> l, stop |-> s]
At(site, d, s) == Failing(d, File, "@" \o site \o "@", s)
Unless(ok, r) == IF ok THEN Go ELSE r
Res(a) ==
  CASE a[1] \in {"out", "err", "outn", "wait", "now", "took", "fmt", "width", "lose", "punct", "global"} -> Go
    [] a[1] = "int" -> Unless(Holds(a[2], a[3], a[4]), At("int" \o a[2], "want " \o Sym[a[2]] \o " got" \o Actually(ToString(a[4])), TRUE))
    [] a[1] = "str" -> Unless(Holds(a[2], a[3], a[4]), At("str" \o a[2], "std::string(want) " \o Sym[a[2]] \o " std::string(got)" \o Actually(a[4]), TRUE))
    [] a[1] = "flt" -> \* <<"flt", macro, text, units, text, units>>
         LET same == a[3] # "nan" /\ a[5] # "nan" /\ Near(a[4], a[6])
         IN Unless(IF a[2] = "EQ" THEN same ELSE ~same, At("flt" \o a[2], "want " \o Sym[a[2]] \o " got" \o Actually(a[5]), TRUE))
    [] a[1] = "bool" -> Unless((a[2] = "TRUE") = (a[3] = "1"), At("bool" \o a[2], "got should be " \o (IF a[2] = "TRUE" THEN "true" ELSE "false") \o Actually(a[3]), TRUE))
    [] a[1] = "thr" -> IF a[3] = "none" THEN At("thr" \o a[2], "Expected exception of type " \o TypeName[a[2]] \o " wasn't thrown", FALSE)
                       ELSE Unless(Matches(a[2], a[3]), Throwing(What[a[3]]))
    [] a[1] = "any" -> Unless(a[2] # "none", At("any", "No throw when any throw was expected", FALSE))
    [] a[1] = "no" -> Unless(a[2] = "none", At("no", IF a[2] = "int" THEN "Unknown exception thrown" ELSE "Exception thrown: \" " \o What[a[2]] \o "\"", FALSE))
    [] a[1] = "fail" -> At("fail", a[2], FailReturns)
    [] a[1] = "check" -> Failing(a[5] \o Actually(a[6]), a[3], a[4], FALSE)       \* checkFail(), which leaves out the directory
    [] a[1] = "direct" -> Failing(a[5], a[2] \o a[3], a[4], FALSE)                \* fail()
    [] a[1] = "throw" -> Throwing(a[2])
    [] a[1] = "throwint" -> Throwing(What["int"])
Ran(n) == Cardinality({j \in DOMAIN evs : evs[j][1] = n /\ evs[j][2] = "S"})     \* how often the case has been run
\* what it is this time: <<"first", action>> and <<"later", action>> are done on the first, or any later, run of the case
Effective(a) == IF a[1] \notin {"first", "later"} THEN a ELSE IF (a[1] = "first") = (Ran(queue[k]) = 1) THEN a[2] ELSE <<"out", "">>
\* the times: what the body has taken up to now
\* (numbers: a case may have made the stream write them otherwise; what it does to the streams ends with the case)
Number10(n) == IF cur.fmt THEN "0x" \o ToString(n) ELSE ToString(n)
Written(a) == CASE (a[1] = "err" /\ "err" \in cur.lost) \/ (a[1] # "err" /\ "out" \in cur.lost) -> ""
                [] a[1] \in {"out", "err"} -> a[2] [] a[1] = "outn" -> a[2] \o Number10(Ran(queue[k])) \o ";"
                [] a[1] \in {"now", "took"} -> ToString(cur.took) \o ";" [] OTHER -> ""
Waited(a) == IF a[1] = "wait" THEN a[2] ELSE 0

\* ---- names
Full(c) == c.comp \o "::" \o c.name
NCases == Len(prog.cases)
Numbers == [j \in 1..NCases |-> j]
Find(name) == {j \in 1..NCases : Full(prog.cases[j]) = name /\ \A m \in 1..(j - 1) : Full(prog.cases[m]) # name}
Known(name) == \E j \in 1..NCases : Full(prog.cases[j]) = name
Number(name) == CHOOSE j \in Find(name) : TRUE
RECURSIVE Grouped(_, _)
Grouped(sel, comps) == IF comps = <<>> THEN <<>> ELSE SelectSeq(sel, LAMBDA j : prog.cases[j].comp = Head(comps)) \o Grouped(sel, Tail(comps))
Verbosity == [x \in {"0", "1", "2", "3", "4", "5"} |-> CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] OTHER -> 5]

\* ---- the command line
RECURSIVE Parse(_, _)
Parse(args, o) ==
  IF args = <<>> THEN o
  ELSE LET a == args[1]
           two == Len(args) > 1
           b == IF two THEN args[2] ELSE ""
           r == IF two THEN SubSeq(args, 3, Len(args)) ELSE <<>>
           bad(how) == [o EXCEPT !.bad = how]
       IN CASE a = "-q" -> Parse(Tail(args), [o EXCEPT !.v = 0])
            [] a = "-c" -> Parse(Tail(args), [o EXCEPT !.cap = FALSE])
            [] a = "-e" -> Parse(Tail(args), o)
            [] a = "-h" -> bad("help")
            [] a = "-v" /\ two /\ b \in DOMAIN Verbosity -> Parse(r, [o EXCEPT !.v = Verbosity[b]])
            [] a = "-t" /\ two -> IF Known(b) THEN Parse(r, [o EXCEPT !.sel = Append(@, Number(b))]) ELSE bad("unknown")
            [] a = "-x" /\ two -> Parse(r, [o EXCEPT !.xml = TRUE])
            [] a = "-n" /\ two -> Parse(r, [o EXCEPT !.name = b])
            [] a = "-i" /\ two -> Parse(r, [o EXCEPT !.id = b])
            [] OTHER -> bad("invalid")

\* ---- pieces of the report: <<"t", text>>, <<"name", what is left of it in a narrow column>>, <<"#", milliseconds>> a time (any time: "")
T(s) == <<"t", s>>
Row(n, c, time, word) == <<T("[" \o ToString(n) \o ":"), <<"name", Full(c)>>, <<"#", time>>, T(word \o "]\n")>>
Block(title, c, text) == <<T(title \o " " \o Full(c) \o "\n")>> \o text \o <<T("\n")>>
Case == prog.cases[queue[k]]
Script == CASE ph = "S" -> Case.setup [] ph = "B" -> Case.body [] ph = "T" -> Case.tear
Fresh == [status |-> "NONE", desc |-> "", file |-> "", line |-> "0", out |-> <<>>, err |-> <<>>, pending |-> "", threw |-> FALSE, bad |-> FALSE, took |-> 0, all |-> 0, fmt |-> FALSE, lost |-> {}]
Passed(r) == r.status = "SUCCESS"
Failures(rs) == Cardinality({j \in DOMAIN rs : ~Passed(rs[j])})

Init ==
  /\ prog \in Programs
  /\ st = "parse" /\ queue = <<>> /\ k = 0 /\ ph = "" /\ i = 0 /\ cur = Fresh
  /\ opt = [v |-> 2, cap |-> TRUE, sel |-> <<>>, xml |-> FALSE, name |-> prog.base, id |-> prog.base, bad |-> ""]
  /\ evs = <<>> /\ out = <<>> /\ err = <<>> /\ results = <<>> /\ codes = <<>> /\ plan = <<>>

\* main(): the options, then the run. Otherwise: single tests by name, then perhaps the whole.
Begin ==
  /\ st = "parse"
  /\ opt' = Parse(prog.args, opt)
  /\ IF opt'.bad # ""
     THEN st' = "done" /\ codes' = <<"failed">> /\ UNCHANGED plan
     ELSE /\ st' = "plan" /\ UNCHANGED codes
          /\ plan' = IF prog.mode \in {"main", "macro"} THEN << <<"all", IF opt'.sel = <<>> THEN Numbers ELSE opt'.sel>> >>
                     ELSE [j \in DOMAIN opt'.sel |-> <<"one", <<opt'.sel[j]>> >>] \o (IF prog.mode = "singles" THEN <<>> ELSE << <<"all", Numbers>> >>)
  /\ UNCHANGED <<prog, queue, k, ph, i, cur, evs, out, err, results>>

Plan ==
  /\ st = "plan" /\ plan # <<>>
  /\ queue' = Grouped(plan[1][2], CompOrder)
  /\ k' = 0 /\ results' = <<>> /\ st' = "next"
  /\ UNCHANGED <<prog, opt, ph, i, cur, evs, out, err, codes, plan>>
Over == st = "plan" /\ plan = <<>> /\ st' = "done" /\ UNCHANGED <<prog, opt, queue, k, ph, i, cur, evs, out, err, results, codes, plan>>

Start ==
  /\ st = "next" /\ k < Len(queue)
  /\ k' = k + 1 /\ st' = "run" /\ ph' = "S" /\ i' = 0 /\ cur' = Fresh
  /\ evs' = Append(evs, <<queue[k'], "S", 0>>)
  /\ out' = IF opt.v >= 3 THEN out \o Row(k', prog.cases[queue[k']], "", "GO") ELSE out
  /\ UNCHANGED <<prog, opt, queue, err, results, codes, plan>>

Count == [evs EXCEPT ![Len(evs)][3] = @ + 1]
\* the next action of the script; what it does to the case is known at once, what it does to the control in Leave
Act ==
  /\ st = "run" /\ i < Len(Script)
  /\ LET a == Effective(Script[i + 1])
         r == Res(a)
         w == Written(a)
         toErr == a[1] = "err"
         c0 == [cur EXCEPT !.all = @ + Waited(a), !.took = IF ph = "B" THEN @ + Waited(a) ELSE @,
                           !.fmt = @ \/ a = <<"fmt", "out">>, !.lost = IF a[1] = "lose" THEN @ \union {a[2]} ELSE @]
         c1 == IF ~opt.cap \/ w = "" THEN c0 ELSE IF toErr THEN [c0 EXCEPT !.err = Append(@, T(w))] ELSE [c0 EXCEPT !.out = Append(@, T(w))]
     IN /\ evs' = Count
        /\ out' = IF ~opt.cap /\ ~toErr /\ w # "" THEN Append(out, T(w)) ELSE out
        /\ err' = IF ~opt.cap /\ toErr /\ w # "" THEN Append(err, T(w)) ELSE err
        /\ cur' = CASE r.k = "go" -> c1
                    [] r.k = "fail" -> [c1 EXCEPT !.status = "FAIL", !.desc = r.desc, !.file = r.file, !.line = r.line, !.bad = TRUE]
                    [] r.k = "throw" -> [c1 EXCEPT !.pending = r.desc, !.threw = TRUE, !.bad = TRUE]
        /\ i' = IF r.stop THEN Len(Script) ELSE i + 1
        /\ st' = IF r.k = "throw" THEN "thrown" ELSE "run"
  /\ UNCHANGED <<prog, opt, queue, k, ph, results, codes, plan>>

Next1(p) == ph' = p /\ i' = 0 /\ evs' = Append(evs, <<queue[k], p, 0>>)
\* a position from a check that failed before the exception is not the exception's: it is left open
Errored == [cur EXCEPT !.status = "ERROR", !.desc = cur.pending, !.file = IF cur.status = "FAIL" THEN "*" ELSE "", !.line = IF cur.status = "FAIL" THEN "*" ELSE "0"]
Leave ==
  /\ st = "run" /\ i = Len(Script)
  /\ CASE ph = "S" -> Next1("B") /\ UNCHANGED <<cur, st>>
       [] ph = "B" -> /\ Next1("T") /\ st' = st
                      /\ cur' = IF cur.status # "NONE" THEN cur
                                ELSE [cur EXCEPT !.status = IF cur.err = <<>> THEN "SUCCESS" ELSE "STREAM-ERROR", !.bad = cur.err # <<>>]
       [] ph = "T" -> /\ st' = "end" /\ cur' = (IF cur.threw THEN Errored ELSE cur) /\ UNCHANGED <<ph, i, evs>>
  /\ UNCHANGED <<prog, opt, queue, k, out, err, results, codes, plan>>
Thrown ==
  /\ st = "thrown"
  /\ IF ph = "B" THEN Next1("T") /\ st' = "run" /\ cur' = cur
     ELSE st' = "end" /\ cur' = Errored /\ UNCHANGED <<ph, i, evs>>
  /\ UNCHANGED <<prog, opt, queue, k, out, err, results, codes, plan>>

Finish ==
  /\ st = "end"
  /\ LET pass == cur.status = "SUCCESS"
         v == opt.v
         o == IF cur.out # <<>> /\ (v >= 5 \/ (v > 0 /\ ~pass)) THEN Block("STDOUT", Case, cur.out) ELSE <<>>
         e == IF cur.err # <<>> /\ (v >= 4 \/ (v > 0 /\ ~pass)) THEN Block("STDERR", Case, cur.err) ELSE <<>>
         s == CASE v > 0 /\ cur.status = "ERROR" -> <<T("Uncaught error in Case " \o ToString(k) \o ": " \o Full(Case) \o "\n" \o cur.desc \o "\n")>>
                [] v > 0 /\ cur.status = "FAIL" -> <<T("Failure in case " \o ToString(k) \o ": " \o Full(Case) \o " at " \o cur.file \o ": " \o cur.line \o "\n" \o cur.desc \o "\n")>>
                [] v >= 2 /\ cur.status \in {"SUCCESS", "STREAM-ERROR"} -> Row(k, Case, ToString(cur.took), IF pass THEN "OK" ELSE "FAIL")
                [] OTHER -> <<>>
     IN out' = out \o o \o e \o s
  /\ results' = Append(results, [case |-> queue[k], status |-> cur.status, desc |-> cur.desc, file |-> cur.file, line |-> cur.line, bad |-> cur.bad, took |-> cur.took, all |-> cur.all])
  /\ st' = "next"
  /\ UNCHANGED <<prog, opt, queue, k, ph, i, cur, evs, err, codes, plan>>

RECURSIVE Listed(_, _)
Listed(names, first) == IF names = <<>> THEN <<>> ELSE <<T((IF first THEN "" ELSE ", ") \o Full(prog.cases[Head(names)]))>> \o Listed(Tail(names), FALSE)
Of(comp) == SelectSeq(results, LAMBDA r : prog.cases[r.case].comp = comp)
Used == SelectSeq(CompOrder, LAMBDA c : Of(c) # <<>>)
RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).all + Total(Tail(rs))
RECURSIVE Components(_)
Components(cs) == IF cs = <<>> THEN <<>>
  ELSE <<T("Component " \o Head(cs) \o " (elapsed "), <<"#", ToString(Total(Of(Head(cs))))>>, T(") " \o (IF Failures(Of(Head(cs))) = 0 THEN "Passed\n" ELSE "FAILED\n"))>> \o Components(Tail(cs))
Report ==
  /\ st = "next" /\ k = Len(queue)
  /\ LET failed == SelectSeq(Numbers, LAMBDA j : \E r \in DOMAIN results : results[r].case = j /\ ~Passed(results[r]))
         ok == failed = <<>>
         whole == plan[1][1] = "all"
     IN /\ codes' = Append(codes, IF ok THEN "ok" ELSE "failed")
        /\ out' = IF opt.v = 0 \/ ~whole THEN out
                  ELSE out \o (IF ok THEN <<>> ELSE <<T("\nFailed cases: ")>> \o Listed(failed, TRUE) \o <<T("\n")>>)
                           \o (IF Len(Used) > 1 THEN Components(Used) ELSE <<>>)
                           \o <<T("Unit Test " \o opt.name \o " (elapsed "), <<"#", ToString(Total(results))>>, T(") " \o (IF ok THEN "Passed\n" ELSE "FAILED\n"))>>
  /\ plan' = Tail(plan) /\ st' = "plan"
  /\ UNCHANGED <<prog, opt, queue, k, ph, i, cur, evs, err, results>>

Step == Plan \/ Start \/ Act \/ Leave \/ Thrown \/ Finish \/ Report

\* ---- the XML report: <<id, name, tests, failures, components: <<name, id, tests, failures, cases: <<id, name, status, description, file, line, time>>, time>>, time>>
XmlCase(r) == LET c == prog.cases[r.case] IN <<opt.id \o "." \o c.comp \o "." \o c.name, c.name, r.status, r.desc, r.file, r.line, r.took>>
XmlComp(c) == LET rs == Of(c) IN <<opt.id \o "." \o c, c, Len(rs), Failures(rs), [j \in DOMAIN rs |-> XmlCase(rs[j])], Total(rs)>>
Xml == IF ~opt.xml \/ opt.bad # "" \/ prog.mode = "singles" THEN <<>>
       ELSE <<opt.id, opt.name, Len(results), Failures(results), [j \in DOMAIN Used |-> XmlComp(Used[j])], Total(results)>>
Verdicts == [j \in DOMAIN results |-> <<results[j].case, results[j].status, results[j].desc, results[j].file, results[j].line, results[j].took>>]

\* ---- what must hold of every run
TypeOK == /\ st \in {"draw", "parse", "plan", "next", "run", "thrown", "end", "done"} /\ cur.status \in {"NONE", "SUCCESS", "STREAM-ERROR", "FAIL", "ERROR"}
          /\ k \in 0..Len(queue)
\* a case passes exactly if nothing in it was bad
Sound == \A j \in DOMAIN results : Passed(results[j]) = ~results[j].bad
\* a failure is never forgotten
NotForgotten == cur.bad /\ st # "thrown" => cur.status # "SUCCESS"
\* a tear-down follows the body of the same case, a body its set-up
Ordered == \A j \in DOMAIN evs : /\ evs[j][2] = "S" \/ (j > 1 /\ evs[j - 1][1] = evs[j][1] /\ evs[j - 1][2] = (IF evs[j][2] = "B" THEN "S" ELSE "B"))
                                 /\ evs[j][2] = "B" /\ j < Len(evs) => evs[j + 1][2] = "T"
\* everything selected has been run, the codes tell
Complete == st = "done" /\ opt.bad = "" /\ prog.mode \in {"main", "macro"} =>
   /\ [j \in DOMAIN results |-> results[j].case] = queue
   /\ Len(queue) = Len(IF opt.sel = <<>> THEN Numbers ELSE opt.sel)
   /\ codes = <<IF \E j \in DOMAIN results : results[j].bad THEN "failed" ELSE "ok">>
NothingRun == st = "done" /\ opt.bad # "" => evs = <<>> /\ codes = <<"failed">>
Silent == opt.v = 0 /\ opt.cap => out = <<>>
Captured == opt.cap => err = <<>>
\* a body takes no longer than the whole of its case; the components add up to the run
Times == /\ \A j \in DOMAIN results : results[j].took <= results[j].all /\ ((\A e \in DOMAIN evs : evs[e][1] = results[j].case => evs[e][2] # "B") => results[j].took = 0)
         /\ st = "done" => Total(results) = LET sum[n \in 0..Len(CompOrder)] == IF n = 0 THEN 0 ELSE sum[n - 1] + Total(Of(CompOrder[n])) IN sum[Len(CompOrder)]
====
