---- MODULE LockTrace ----
(* Recorded executions of a lock: events <<t, "c", op>> (called) and <<t, "r", op, answer>>
   (returned).                                                                               *)
EXTENDS Traces
CONSTANT Recursive
VARIABLES owner, cnt, ph, ans
Lk == INSTANCE Lock WITH Thr <- 1..8
lvars == <<owner, cnt, ph, ans>>
vars == <<tr, l, owner, cnt, ph, ans>>
Init == TracesInit /\ Lk!LockInit

Called == /\ Consume /\ Event[2] = "c" /\ Lk!Call(Event[1], Event[3])
\* what an owner asks about itself is known to it
After(op) == CASE op = "lock" -> "locked" [] op = "unlock" -> "unlocked" [] OTHER -> "told"
Returned == /\ Consume /\ Event[2] = "r" /\ Lk!Return(Event[1], After(Event[3]))
            /\ Event[3] \in {"islocked", "isowner"} => ans[Event[1]] = Event[4]
Silent == /\ More /\ Stay
          /\ \E t \in 1..Threads : Lk!Take(t) \/ Lk!Free(t) \/ Lk!Tell(t)
Done == /\ NextTrace /\ owner' = 0 /\ cnt' = 0 /\ ph' = [t \in 1..8 |-> "idle"] /\ ans' = [t \in 1..8 |-> FALSE]
Next == Called \/ Returned \/ Silent \/ Done
Spec == Init /\ [][Next]_vars
====
