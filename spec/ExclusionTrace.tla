---- MODULE ExclusionTrace ----
(* Recorded executions of a lock in which at most one thread is between the return from lock and
   the following call of unlock, and each holder knows (in the sense of the memory model) all that
   the previous ones did before unlocking.  The events are those of HB and <<"e", t, "c"|"r", op>>. *)
EXTENDS Traces, HB
VARIABLES h, holder, depth, rel
vars == <<tr, l, h, holder, depth, rel>>
Fresh(i) == IF i <= Count THEN HBInit(Executions[i][1], Executions[i][2], Executions[i][3]) ELSE <<>>
NoRel(i) == IF i <= Count THEN [t \in 1..Executions[i][1] |-> 0] ELSE <<>>
Init == TracesInit /\ h = Fresh(1) /\ holder = 0 /\ depth = 0 /\ rel = NoRel(1)
IsCall(k, op) == Event[1] = "e" /\ Event[3] = k /\ Event[4] = op
Other == /\ Consume /\ ~IsCall("r", "lock") /\ ~IsCall("c", "unlock")
         /\ Ordered(h, Event) /\ h' = HBNext(h, Event)
         /\ UNCHANGED <<holder, depth, rel>>
Enter == /\ Consume /\ IsCall("r", "lock")
         /\ LET t == Event[2] IN
            /\ holder = 0 \/ (Info = 1 /\ holder = t)
            /\ VCLeq(rel, h.C[t])
            /\ holder' = t /\ depth' = depth + 1
         /\ UNCHANGED <<h, rel>>
\* (what was done before the call is told apart from what comes after it)
Leave == /\ Consume /\ IsCall("c", "unlock")
         /\ LET t == Event[2] IN
            IF holder = 0 THEN UNCHANGED <<h, holder, depth, rel>>
            ELSE /\ holder = t
                 /\ depth' = depth - 1
                 /\ holder' = IF depth = 1 THEN 0 ELSE t
                 /\ rel' = h.C[t]
                 /\ UNCHANGED h
Done == NextTrace /\ h' = Fresh(tr + 1) /\ holder' = 0 /\ depth' = 0 /\ rel' = NoRel(tr + 1)
Next == Other \/ Enter \/ Leave \/ Done
Spec == Init /\ [][Next]_vars
====
