---- MODULE Lock ----
(* A lock as its users see it.  Calls take effect at one moment between being made and returning.
   Recursive: the holder may take it again, and it is free after as many unlocks.  Unlocking a
   free lock changes nothing.                                                                  *)
EXTENDS Naturals
CONSTANTS Thr, Recursive
VARIABLES owner, cnt, ph, ans
lvars == <<owner, cnt, ph, ans>>
NoOne == 0

LockInit == /\ owner = NoOne /\ cnt = 0
            /\ ph = [t \in Thr |-> "idle"] /\ ans = [t \in Thr |-> FALSE]

Call(t, op) == /\ ph[t] = "idle" /\ ph' = [ph EXCEPT ![t] = op]
               /\ UNCHANGED <<owner, cnt, ans>>
Return(t, op) == /\ ph[t] = op /\ ph' = [ph EXCEPT ![t] = "idle"]
                 /\ UNCHANGED <<owner, cnt, ans>>

\* the lock is taken
Take(t) == /\ ph[t] = "lock"
           /\ owner = NoOne \/ (Recursive /\ owner = t)
           /\ owner' = t /\ cnt' = cnt + 1
           /\ ph' = [ph EXCEPT ![t] = "locked"] /\ UNCHANGED ans
\* the lock is released; only the holder may ask for it, or anybody when it is free
Free(t) == /\ ph[t] = "unlock" /\ owner \in {t, NoOne}
           /\ IF owner = NoOne THEN UNCHANGED <<owner, cnt>>
              ELSE cnt' = cnt - 1 /\ owner' = IF cnt = 1 THEN NoOne ELSE owner
           /\ ph' = [ph EXCEPT ![t] = "unlocked"] /\ UNCHANGED ans
Tell(t) == /\ ph[t] \in {"islocked", "isowner"}
           /\ ans' = [ans EXCEPT ![t] = IF ph[t] = "islocked" THEN owner # NoOne ELSE owner = t]
           /\ ph' = [ph EXCEPT ![t] = "told"] /\ UNCHANGED <<owner, cnt>>

LockNext == \E t \in Thr :
  \/ Call(t, "lock") \/ (owner = t /\ Call(t, "unlock")) \/ Call(t, "islocked") \/ Call(t, "isowner")
  \/ Take(t) \/ Free(t) \/ Tell(t)
  \/ Return(t, "locked") \/ Return(t, "unlocked") \/ Return(t, "told")
LockSpec == LockInit /\ [][LockNext]_lvars
====
