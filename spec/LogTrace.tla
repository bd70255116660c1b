---- MODULE LogTrace ----
(* Recorded executions of the logging service: every call takes effect, as an action of LogSystem, at one
   or (log) two moments between <<t, "c", op, args>> and <<t, "r", reply>>; <<t, "d", l, m, intact>> and <<t, "x", l, m, intact>> are
   the begin and end of a call of listener l with message m, <<t, "gone", l>> its destruction, <<t, "q">> a
   moment when nothing can happen any more unless thread t does something, <<t, "live", n>> how many
   blocks of memory are left.  <<t, "i", running, pool size>> starts.                                       *)
EXTENDS Traces, Integers, FiniteSets
CONSTANTS PoolJudged, PoolSize, MaxL
VARIABLES general, running, queue, cur, pending, active, lst, leaving, done, ok, bad, busy, pool, created, discarded, given, longest, received
VARIABLES pend, held, dead   \* calls; the listeners still held outside; those destroyed
S == INSTANCE LogSystem WITH Listeners <- 1..MaxL, PoolSize <- PoolSize
svars == <<general, running, queue, cur, pending, active, lst, leaving, done, ok, bad, busy, pool, created, discarded, given, longest, received>>
vars == <<tr, l, svars, pend, held, dead>>
Threads0 == 1..24
NoCall == [t \in Threads0 |-> <<"idle">>]
Init == TracesInit /\ S!InitWith(FALSE) /\ pend = NoCall /\ held = 1..MaxL /\ dead = {}
B(b) == IF b THEN 1 ELSE 0

Begin == Consume /\ Event[2] = "i" /\ Event[4] = PoolSize /\ S!Reset(Event[3] = 1) /\ UNCHANGED <<pend, held, dead>>
Called == /\ Consume /\ Event[2] = "c" /\ pend[Event[1]][1] = "idle"
          /\ pend' = [pend EXCEPT ![Event[1]] = <<"called", Event[3], Event[4]>>]
          /\ held' = IF Event[3] = "drop" THEN held \ {Event[4][1]} ELSE held
          /\ UNCHANGED <<svars, dead>>
Becomes(t, s) == pend' = [pend EXCEPT ![t] = <<s, pend[t][2], pend[t][3]>>]
Done(t, r) == pend' = [pend EXCEPT ![t] = <<"done", r>>]
Stopping == {u \in Threads0 : pend[u][1] = "stopping"}
Effect(t) ==
  LET st == pend[t][1] op == pend[t][2] a == pend[t][3] IN
  \/ /\ st = "called"
     /\ \/ op = "log" /\ IF S!Enabled(a[2]) THEN IF PoolJudged THEN S!Allocate /\ Becomes(t, "composed") ELSE UNCHANGED svars /\ Becomes(t, "composed")
                         ELSE UNCHANGED svars /\ Done(t, <<>>)
        \/ op = "give" /\ S!Accept(a[1], a[2], a[3], TRUE) /\ Done(t, <<>>)
        \/ op = "glevel" /\ S!GeneralLevel(a[1]) /\ Done(t, <<>>)
        \/ op = "getglevel" /\ UNCHANGED svars /\ Done(t, <<general>>)
        \/ op = "add" /\ S!Add(a[1]) /\ Done(t, <<>>)
        \/ op = "detach" /\ S!Detach(a[1]) /\ Done(t, <<>>)
        \/ op = "isdet" /\ UNCHANGED svars /\ Done(t, <<B(lst[a[1]].det)>>)
        \/ op = "enable" /\ S!Enable(a[1], a[2] = 1) /\ Done(t, <<>>)
        \/ op = "isenabled" /\ UNCHANGED svars /\ Done(t, <<B(lst[a[1]].on)>>)
        \/ op = "level" /\ S!Level(a[1], a[2]) /\ Done(t, <<>>)
        \/ op = "getlevel" /\ UNCHANGED svars /\ Done(t, <<lst[a[1]].lv>>)
        \/ op = "cat" /\ S!Category(a[1], a[2]) /\ Done(t, <<B(S!Valid(a[2]))>>)
        \/ op = "getcat" /\ UNCHANGED svars /\ Done(t, <<lst[a[1]].rx>>)
        \/ op = "start" /\ (running \/ (S!Idle /\ Stopping = {})) /\ S!Start /\ Done(t, <<>>)
        \/ op = "stop" /\ S!Stop /\ Becomes(t, "stopping")
        \/ op = "destroy" /\ S!Stop /\ Becomes(t, "stopping")
        \/ op = "drop" /\ UNCHANGED svars /\ Done(t, <<>>)
        \/ op = "diags" /\ UNCHANGED svars /\ Done(t, IF PoolJudged THEN S!Diagnostics ELSE <<received, Cardinality(pending), Cardinality(active), S!Diagnostics[8]>>)
        \/ op = "anydiags" /\ UNCHANGED svars /\ Done(t, <<>>)
        \/ op = "uses" /\ UNCHANGED svars /\ Done(t, <<1 + S!Holds(a[1])>>)
  \/ st = "composed" /\ S!Accept(a[1], a[2], a[3], FALSE) /\ Done(t, <<>>)
  \/ st = "stopping" /\ S!Idle /\ IF op = "destroy" THEN S!End /\ Becomes(t, "destroyed") ELSE UNCHANGED svars /\ Done(t, <<>>)
  \* the listeners nobody else holds are gone with it: their events come before this
  \/ st = "destroyed" /\ UNCHANGED svars /\ Done(t, <<>>)

Told == /\ Consume /\ Event[2] = "r" /\ pend[Event[1]][1] = "done"
        /\ LET r == pend[Event[1]][2] IN
             \* (the numbers of the pool are not followed everywhere)
             IF ~PoolJudged /\ Len(Event[3]) = 8 THEN <<Event[3][3], Event[3][6], Event[3][7], Event[3][8]>> = r ELSE Event[3] = r
        /\ pend' = [pend EXCEPT ![Event[1]] = <<"idle">>] /\ UNCHANGED <<svars, held, dead>>
Delivered == Consume /\ Event[2] = "d" /\ Event[5] = 1 /\ S!Deliver(Event[3], Event[4]) /\ UNCHANGED <<pend, held, dead>>
Returned == Consume /\ Event[2] = "x" /\ Event[5] = 1 /\ S!Return(Event[3], Event[4]) /\ UNCHANGED <<pend, held, dead>>
\* a listener goes away when nobody outside holds it and the service has let it go; a service that goes away lets all of them go
Gone == /\ Consume /\ Event[2] = "gone" /\ Event[3] \notin held \cup dead /\ S!Drop(Event[3])
        /\ dead' = dead \cup {Event[3]} /\ UNCHANGED <<pend, held>>
Quiet == Consume /\ Event[2] = "q" /\ S!Quiet /\ (\A t \in Threads0 : pend[t][1] = "idle")
         /\ (\A i \in 1..MaxL : i \in held \cup dead \cup pending \cup active) /\ UNCHANGED <<svars, pend, held, dead>>
Live == Consume /\ Event[2] = "live" /\ Event[3] = 0 /\  UNCHANGED <<svars, pend, held, dead>>
\* nothing needs to happen before one of these
Matters == More /\ Event[2] \in {"r", "d", "q", "gone"}
\* a listener that is added while a message is delivered: whether it is active before the next one shows in these ways
Tells(i) == (Event[2] = "d" /\ Event[3] = i) \/ lst[i].det \/ \E t \in 1..Threads : pend[t][1] = "called" /\ pend[t][2] = "diags"
Silent == /\ Matters /\ Stay
          /\ \/ \E t \in 1..Threads : pend[t][1] \in {"called", "composed", "stopping", "destroyed"} /\ Effect(t) /\ UNCHANGED <<held, dead>>
             \/ S!Take /\ UNCHANGED <<pend, held, dead>>
             \/ \E i \in pending : Tells(i) /\ S!Adopt(i) /\ UNCHANGED <<pend, held, dead>>
             \/ \E more \in SUBSET {i \in active \ leaving : lst[i].det} : S!Finish((leaving \cap active) \cup more) /\ UNCHANGED <<pend, held, dead>>
NextOne == NextTrace /\ S!Reset(FALSE) /\ pend' = NoCall /\ held' = 1..MaxL /\ dead' = {}
Next == Begin \/ Called \/ Told \/ Delivered \/ Returned \/ Gone \/ Quiet \/ Live \/ Silent \/ NextOne
Spec == Init /\ [][Next]_vars
====
