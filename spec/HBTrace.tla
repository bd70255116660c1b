---- MODULE HBTrace ----
(* Recorded executions in which every access is ordered after the earlier ones it conflicts
   with: executions without data races.                                                      *)
EXTENDS Traces, HB
VARIABLE h
vars == <<tr, l, h>>
Fresh(i) == IF i <= Count THEN HBInit(Executions[i][1], Executions[i][2], Executions[i][3]) ELSE <<>>
Init == TracesInit /\ h = Fresh(1)
Access == /\ Consume /\ Ordered(h, Event) /\ h' = HBNext(h, Event)
Done == NextTrace /\ h' = Fresh(tr + 1)
Next == Access \/ Done
Spec == Init /\ [][Next]_vars
====
