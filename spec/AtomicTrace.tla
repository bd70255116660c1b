---- MODULE AtomicTrace ----
(* Recorded executions of the atomic helpers: every call takes effect at one moment between the
   event <<t, "c", op, a, b>> and <<t, "r", result>>; <<t, "i", v>> gives the initial value.     *)
EXTENDS Traces, Atomics
VARIABLES val, pend
vars == <<tr, l, val, pend>>
None == [t \in 1..8 |-> <<"idle">>]
Init == TracesInit /\ val = 0 /\ pend = None
Start == Consume /\ Event[2] = "i" /\ val' = Event[3] /\ UNCHANGED pend
Called == /\ Consume /\ Event[2] = "c" /\ pend[Event[1]][1] = "idle"
          /\ pend' = [pend EXCEPT ![Event[1]] = <<"called", Event[3], Event[4], Event[5]>>] /\ UNCHANGED val
Effective == /\ More /\ Stay
             /\ \E t \in 1..Threads : /\ pend[t][1] = "called"
                                      /\ LET r == Effect(pend[t][2], pend[t][3], pend[t][4], val) IN
                                         val' = r[2] /\ pend' = [pend EXCEPT ![t] = <<"done", r[1]>>]
Returned == /\ Consume /\ Event[2] = "r" /\ pend[Event[1]] = <<"done", Event[3]>>
            /\ pend' = [pend EXCEPT ![Event[1]] = <<"idle">>] /\ UNCHANGED val
Done == NextTrace /\ val' = 0 /\ pend' = None
Next == Start \/ Called \/ Effective \/ Returned \/ Done
Spec == Init /\ [][Next]_vars
====
