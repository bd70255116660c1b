---- MODULE RFutexAlg ----
(* The algorithm of RFutex: threads get a number at their first lock; the word holds the number of
   the owner, a counter the depth.  It refines the recursive Lock.                               *)
EXTENDS Naturals
CONSTANTS Thr, MaxDepth, Rounds
VARIABLES word, count, ids, next, pc, ans, round
vars == <<word, count, ids, next, pc, ans, round>>
Init == /\ word = 0 /\ count = 0 /\ ids = [t \in Thr |-> 0] /\ next = 0
        /\ pc = [t \in Thr |-> "idle"] /\ ans = [t \in Thr |-> FALSE] /\ round = [t \in Thr |-> 0]
Goto(t, s) == pc' = [pc EXCEPT ![t] = s]
Holds(t) == ids[t] # 0 /\ word = ids[t]
Start(t) == /\ pc[t] = "idle" /\ round[t] < Rounds /\ (Holds(t) => count < MaxDepth)
            /\ Goto(t, IF ids[t] = 0 THEN "number" ELSE "try") /\ round' = [round EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<word, count, ids, next, ans>>
Number(t) == /\ pc[t] = "number" /\ next' = next + 1 /\ ids' = [ids EXCEPT ![t] = next + 1] /\ Goto(t, "try")
             /\ UNCHANGED <<word, count, ans, round>>
Try(t) == /\ pc[t] = "try"
          /\ IF word = 0 THEN word' = ids[t] /\ Goto(t, "add")
             ELSE UNCHANGED word /\ Goto(t, IF word = ids[t] THEN "add" ELSE "try")
          /\ UNCHANGED <<count, ids, next, ans, round>>
Add(t) == pc[t] = "add" /\ count' = count + 1 /\ Goto(t, "in") /\ UNCHANGED <<word, ids, next, ans, round>>
Back(t) == pc[t] = "in" /\ Goto(t, "idle") /\ UNCHANGED <<word, count, ids, next, ans, round>>
\* unlocking by the owner, or by anybody when nobody is about to use the lock
Unlock(t) == /\ pc[t] = "idle" /\ Holds(t) /\ Goto(t, "out") /\ UNCHANGED <<word, count, ids, next, ans, round>>
Sub(t) == /\ pc[t] = "out"
          /\ IF count = 0 THEN UNCHANGED count /\ Goto(t, "gone")
             ELSE count' = count - 1 /\ Goto(t, IF count = 1 THEN "store" ELSE "gone")
          /\ UNCHANGED <<word, ids, next, ans, round>>
Store(t) == pc[t] = "store" /\ word' = 0 /\ Goto(t, "gone") /\ UNCHANGED <<count, ids, next, ans, round>>
Home(t) == pc[t] = "gone" /\ Goto(t, "idle") /\ UNCHANGED <<word, count, ids, next, ans, round>>
Ask(t, q) == pc[t] = "idle" /\ Goto(t, q) /\ UNCHANGED <<word, count, ids, next, ans, round>>
Load(t) == /\ pc[t] \in {"islocked", "isowner"}
           /\ ans' = [ans EXCEPT ![t] = IF pc[t] = "islocked" THEN word # 0 ELSE Holds(t)]
           /\ Goto(t, "told") /\ UNCHANGED <<word, count, ids, next, round>>
Told(t) == pc[t] = "told" /\ Goto(t, "idle") /\ UNCHANGED <<word, count, ids, next, ans, round>>
Work(t) == Number(t) \/ Try(t) \/ Add(t) \/ Back(t) \/ Sub(t) \/ Store(t) \/ Home(t) \/ Load(t) \/ Told(t)
Next == \E t \in Thr : Start(t) \/ Unlock(t) \/ Ask(t, "islocked") \/ Ask(t, "isowner") \/ Work(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(Work(t)) /\ SF_vars(Unlock(t))

Owner == IF word = 0 THEN 0 ELSE CHOOSE t \in Thr : ids[t] = word
\* the lock counts as taken when the word is, and as released when the word is
Depth == IF word = 0 THEN 0
         ELSE IF \E t \in Thr : pc[t] = "add" /\ ids[t] = word THEN count + 1
         ELSE IF \E t \in Thr : pc[t] = "store" THEN 1
         ELSE count
Phase(t) == CASE pc[t] \in {"number", "try"} -> "lock" [] pc[t] \in {"add", "in"} -> "locked" [] pc[t] \in {"out", "store"} -> "unlock"
              [] pc[t] = "gone" -> "unlocked" [] OTHER -> pc[t]
Abs == INSTANCE Lock WITH Recursive <- TRUE, owner <- Owner, cnt <- Depth, ph <- [t \in Thr |-> Phase(t)], ans <- ans
Refines == Abs!LockSpec
CountOK == word = 0 => count = 0
Obtainable == (\E t \in Thr : pc[t] = "try") ~> (word # 0)
====
