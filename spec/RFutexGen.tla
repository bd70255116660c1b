---- MODULE RFutexGen ----
(* Behaviours of the recursive lock in which the calls do not overlap: which thread calls what, how
   many times in a row, and the answers of both queries for every thread afterwards, to be replayed
   on RFutex.  A thread may also end, others come and go that use the lock once each, and a new one
   takes its place.                                                                               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Thr, Depth, MaxDepth,
          Times,    \* calls in a row
          Crowds    \* threads that come and go
VARIABLES owner, cnt, hist
vars == <<owner, cnt, hist>>
B(b) == IF b THEN 1 ELSE 0
Obs(o) == << B(o # 0), [t \in Thr |-> B(o = t)] >>
Log(op, t, o, n) == hist' = Append(hist, <<op, t, Obs(o), n>>)
Init == owner = 0 /\ cnt = 0 /\ hist = << >>
Lock(t, n) == /\ owner \in {0, t} /\ cnt + n <= MaxDepth /\ owner' = t /\ cnt' = cnt + n /\ Log("lock", t, t, n)
\* unlocking what is free changes nothing, so there may be more of them than needed
Unlock(t, n) == /\ owner \in {0, t}
                /\ IF cnt <= n THEN cnt' = 0 /\ owner' = 0 ELSE cnt' = cnt - n /\ owner' = owner
                /\ Log("unlock", t, owner', n)
Renew(t, n) == /\ owner # t /\ (n > 0 => owner = 0) /\ UNCHANGED <<owner, cnt>> /\ Log("renew", t, owner, n)
Next == Len(hist) < Depth /\ \E t \in Thr : (\E n \in Times : Lock(t, n) \/ Unlock(t, n)) \/ (\E n \in Crowds : Renew(t, n))
Spec == Init /\ [][Next]_vars
TypeOK == (owner = 0) <=> (cnt = 0)
Emit == (Len(hist) = Depth) => PrintT(ToJson(<<"T", hist, <<>>>>))
\* crowds are slow: only behaviours where one comes between two uses
EmitOne == (Len(hist) = Depth /\ hist[1][1] = "renew" /\ hist[1][2] = 1 /\ hist[2][1] = "lock" /\ hist[2][2] = 1 /\ hist[3][1] = "unlock") => PrintT(ToJson(<<"T", hist, <<>>>>))
====
