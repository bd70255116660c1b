---- MODULE YieldTrace ----
(* What one thread does in lock() of a futex with spin count Info: attempts <<"a">> on the futex's
   word, looks <<"l">> at it that may or may not be meant as attempts, and yields <<"y">>, between
   <<"c">> and <<"r">>.  An attempt has failed when another one or a yield follows.                *)
EXTENDS Traces
VARIABLES fails, prev
vars == <<tr, l, fails, prev>>
Init == TracesInit /\ fails = 0 /\ prev = "none"
K(k) == Consume /\ Event[1] = k
\* how many failures there are once the last attempt is known to have failed
Failed == CASE prev = "none" -> {fails}
            [] prev = "a" -> {fails + 1}
            [] prev = "l" -> {fails, fails + 1}
Begin == K("c") /\ fails' = 0 /\ prev' = "none"
Try == /\ K("a") \/ K("l")
       /\ \E f \in Failed : /\ Info = 0 \/ f < Info
                            /\ fails' = f
       /\ prev' = Event[1]
Yield == /\ K("y") /\ Info > 0 /\ prev # "none"
         /\ Info \in Failed
         /\ fails' = 0 /\ prev' = "none"
End == K("r") /\ prev # "none" /\ UNCHANGED <<fails, prev>>
Done == NextTrace /\ fails' = 0 /\ prev' = "none"
Next == Begin \/ Try \/ Yield \/ End \/ Done
Spec == Init /\ [][Next]_vars
====
