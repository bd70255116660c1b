---- MODULE SingletonTrace ----
(* Recorded executions of accesses to a singleton: <<t, "c">> access begins, <<t, "r", object, ok>>
   it returned that object, found whole or not; <<t, "built">> and <<t, "complete">> are the
   begin and the end of a constructor, <<t, "gone">> of a destructor.  Info 1: the constructor
   cannot be seen.                                                                                *)
EXTENDS Traces, FiniteSets
VARIABLES st, inside
vars == <<tr, l, st, inside>>
Before(i) == IF i <= Count /\ Executions[i][4] = 1 THEN "ready" ELSE "none"
Init == TracesInit /\ st = Before(1) /\ inside = {}
E(k) == Consume /\ Event[2] = k
Begin == E("c") /\ Event[1] \notin inside /\ inside' = inside \cup {Event[1]} /\ UNCHANGED st
\* constructed by an access, once
Built == E("built") /\ st = "none" /\ Event[1] \in inside /\ st' = "building" /\ UNCHANGED inside
Complete == E("complete") /\ st = "building" /\ st' = "ready" /\ UNCHANGED inside
Return == /\ E("r") /\ st = "ready" /\ Event[1] \in inside
          /\ Event[3] = 1 /\ Event[4] = 1
          /\ inside' = inside \ {Event[1]} /\ UNCHANGED st
Done == NextTrace /\ st' = Before(tr + 1) /\ inside' = {}
Next == Begin \/ Built \/ Complete \/ Return \/ Done
Spec == Init /\ [][Next]_vars
====
