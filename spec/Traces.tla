---- MODULE Traces ----
(* What the specifications that check recorded executions have in common.  A file holds one
   execution per line, [T, K, N, info, events]: numbers of threads, memory cells and locks,
   what the specification needs to know about the scenario, and the events.  The executions are
   gone through one after the other; TLC's registers keep how far any behaviour of the
   specification could follow them.                                                          *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

CONSTANT TraceFile
Executions == ndJsonDeserialize(TraceFile)
Count == Len(Executions)

VARIABLES tr, l

Threads == Executions[tr][1]
Cells == Executions[tr][2]
Locks == Executions[tr][3]
Info == Executions[tr][4]
Events == Executions[tr][5]
Event == Events[l]
More == tr <= Count /\ l <= Len(Events)
AtEnd == tr <= Count /\ l > Len(Events)

TracesInit == tr = 1 /\ l = 1
Consume == /\ More /\ l' = l + 1 /\ tr' = tr
NextTrace == /\ AtEnd /\ tr' = tr + 1 /\ l' = 1
Stay == UNCHANGED <<tr, l>>

\* keeps the furthest point reached (an action constraint; one worker)
Furthest ==
  /\ IF tr' > TLCGet(11) THEN TLCSet(11, tr') /\ TLCSet(12, l')
     ELSE IF tr' = TLCGet(11) /\ l' > TLCGet(12) THEN TLCSet(12, l') ELSE TRUE
ASSUME TLCSet(11, 1) /\ TLCSet(12, 1)
AllFollowed == /\ PrintT(<<"FURTHEST", TLCGet(11), TLCGet(12), Count>>)
               /\ TLCGet(11) = Count + 1
====
