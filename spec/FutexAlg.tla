---- MODULE FutexAlg ----
(* The algorithm of Futex: compare-and-exchange on one word, a yield after every Spin consecutive
   failures.  It refines Lock; a waiting thread is let in when the lock is free.               *)
EXTENDS Naturals
CONSTANTS Thr, Spin, Rounds
VARIABLES word, pc, sc, round, fails, ans, holder
vars == <<word, pc, sc, round, fails, ans, holder>>

Init == /\ word = FALSE /\ pc = [t \in Thr |-> "idle"] /\ sc = [t \in Thr |-> 0]
        /\ round = [t \in Thr |-> 0] /\ fails = [t \in Thr |-> 0] /\ ans = [t \in Thr |-> FALSE] /\ holder = 0
Goto(t, s) == pc' = [pc EXCEPT ![t] = s]
Start(t) == /\ pc[t] = "idle" /\ holder # t /\ round[t] < Rounds /\ Goto(t, "try")
            /\ sc' = [sc EXCEPT ![t] = Spin] /\ fails' = [fails EXCEPT ![t] = 0]
            /\ round' = [round EXCEPT ![t] = @ + 1] /\ UNCHANGED <<word, ans, holder>>
Try(t) == /\ pc[t] = "try"
          /\ IF ~word THEN /\ word' = TRUE /\ holder' = t /\ Goto(t, "in") /\ UNCHANGED <<sc, fails>>
             ELSE /\ UNCHANGED <<word, holder>> /\ fails' = [fails EXCEPT ![t] = IF @ > Spin THEN @ ELSE @ + 1]
                  /\ IF Spin > 0 THEN /\ sc' = [sc EXCEPT ![t] = @ - 1]
                                      /\ Goto(t, IF sc[t] = 1 THEN "yield" ELSE "try")
                     ELSE UNCHANGED sc /\ Goto(t, "try")
          /\ UNCHANGED <<round, ans>>
Yield(t) == /\ pc[t] = "yield" /\ Goto(t, "try") /\ sc' = [sc EXCEPT ![t] = Spin]
            /\ fails' = [fails EXCEPT ![t] = 0] /\ UNCHANGED <<word, round, ans, holder>>
Back(t) == pc[t] = "in" /\ Goto(t, "idle") /\ UNCHANGED <<word, sc, round, fails, ans, holder>>
Unlock(t) == /\ pc[t] = "idle" /\ holder = t /\ Goto(t, "out") /\ UNCHANGED <<word, sc, round, fails, ans, holder>>
Store(t) == /\ pc[t] = "out" /\ word' = FALSE /\ holder' = 0 /\ Goto(t, "gone") /\ UNCHANGED <<sc, round, fails, ans>>
Home(t) == pc[t] = "gone" /\ Goto(t, "idle") /\ UNCHANGED <<word, sc, round, fails, ans, holder>>
Ask(t) == /\ pc[t] = "idle" /\ Goto(t, "ask") /\ UNCHANGED <<word, sc, round, fails, ans, holder>>
Load(t) == /\ pc[t] = "ask" /\ ans' = [ans EXCEPT ![t] = word] /\ Goto(t, "told") /\ UNCHANGED <<word, sc, round, fails, holder>>
Told(t) == pc[t] = "told" /\ Goto(t, "idle") /\ UNCHANGED <<word, sc, round, fails, ans, holder>>
Step(t) == Start(t) \/ Try(t) \/ Yield(t) \/ Back(t) \/ Unlock(t) \/ Store(t) \/ Home(t) \/ Ask(t) \/ Load(t) \/ Told(t)
Next == \E t \in Thr : Step(t)
\* every thread goes on, leaves the lock when it has it, and asks only now and then
Fair == \A t \in Thr : /\ WF_vars(Try(t) \/ Yield(t) \/ Back(t) \/ Store(t) \/ Home(t) \/ Load(t) \/ Told(t))
                       /\ SF_vars(Unlock(t))
Spec == Init /\ [][Next]_vars /\ Fair

Phase(t) == CASE pc[t] = "idle" -> "idle" [] pc[t] \in {"try", "yield"} -> "lock" [] pc[t] = "in" -> "locked"
              [] pc[t] = "out" -> "unlock" [] pc[t] = "gone" -> "unlocked" [] pc[t] = "ask" -> "islocked" [] pc[t] = "told" -> "told"
Abs == INSTANCE Lock WITH Recursive <- FALSE, owner <- holder, cnt <- IF holder = 0 THEN 0 ELSE 1,
                          ph <- [t \in Thr |-> Phase(t)], ans <- ans
Refines == Abs!LockSpec
WordOK == word = (holder # 0)
YieldOK == \A t \in Thr : /\ Spin = 0 => pc[t] # "yield"
                          /\ (pc[t] = "yield") => fails[t] = Spin
                          /\ (Spin > 0 /\ pc[t] = "try") => fails[t] < Spin
\* someone who waits gets in, or someone else keeps getting in
Waiting == \E t \in Thr : pc[t] \in {"try", "yield"}
Obtainable == Waiting ~> (holder # 0)
AllIn == <>[](\A t \in Thr : round[t] < Rounds \/ pc[t] \notin {"try", "yield"})
NoneLeft == \A t \in Thr : (pc[t] = "try" \/ pc[t] = "yield") ~> (holder = t)
====
