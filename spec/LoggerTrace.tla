---- MODULE LoggerTrace ----
(* Recorded executions of log statements: <<t, "open", "s" or "b", level, line>> before a statement, <<t, "o", kind, ..>> each
   operand evaluated, <<t, "x">> each turned into text, <<t, "body">> a block's body entered, <<t, "end">>, <<t, "left">> and
   <<t, "abort">> after it; <<_, "m", level, category, line, file ok, text>> a message received; <<t, "q">> nothing can happen
   any more unless t does something.                                                                   *)
EXTENDS Traces, Integers
CONSTANT MinLevel
VARIABLES general, category, stack, due
L == INSTANCE Logger WITH Writers <- 1..8
lgvars == <<general, category, stack, due>>
vars == <<tr, l, lgvars>>
Init == TracesInit /\ L!InitLogger
T == Event[1]
Step ==
  /\ Consume
  /\ CASE Event[2] = "open" -> L!Open(T, Event[3] = "b", Event[4], Event[5])
       [] Event[2] = "o" -> L!Operand(T, Event[3], IF Len(Event) > 3 THEN Event[4] ELSE 0)
       [] Event[2] = "x" -> L!Streamed(T)
       [] Event[2] = "body" -> L!Body(T)
       [] Event[2] = "end" -> L!Close(T)
       [] Event[2] \in {"left", "abort"} -> L!Abandon(T)
       [] Event[2] = "category" -> L!SetCategory(T, Event[3])
       [] Event[2] = "getcat" -> Event[3] = category[T] /\ UNCHANGED lgvars
       [] Event[2] = "glevel" -> L!SetGeneral(Event[3])
       [] Event[2] = "m" -> Event[6] = 1 /\ \E t \in 1..8 : L!Deliver(t, <<Event[3], Event[4], Event[5], Event[7]>>)
       [] Event[2] = "q" -> (\A t \in 1..8 : due[t] = <<>>) /\ UNCHANGED lgvars
\* a message may arrive before its statement is over for the thread that logs it
Early == More /\ Event[2] = "m" /\ Stay /\ \E t \in 1..8 : L!Tell(t)
NextOne == NextTrace /\ L!ResetLogger
Next == Step \/ Early \/ NextOne
Spec == Init /\ [][Next]_vars
====
