---- MODULE LogStreamTrace ----
(* Recorded executions of a stream listener: calls <<t, "c", op, argument>> .. <<t, "r">>; <<t, "w", k, good, text, stamp, now>>: a complete line
   (good = 1), after date and time (stamp), has been written to stream k and flushed at the moment now; <<t, "gone", k>>: stream k is
   destroyed; <<t, "made", k, how>>; <<t, "live", n>>: blocks of memory left at the end.                      *)
EXTENDS Traces, Integers, LogStream
VARIABLES pend, zone
vars == <<tr, l, svars, pend, zone>>
Threads0 == 1..12
NoCall == [t \in Threads0 |-> <<"idle">>]
Init == TracesInit /\ InitStream /\ pend = NoCall /\ zone = <<0, 0, 0>>
How == <<"borrowed", "owned", "shared">>

\* <<t, "i", seconds, summer, day>>: see Local
Begin == Consume /\ Event[2] = "i" /\ zone' = <<Event[3], Event[4], Event[5]>> /\ UNCHANGED <<svars, pend>>
Made == Consume /\ Event[2] = "made" /\ Make(Event[3], How[Event[4]]) /\ UNCHANGED pend
Called == /\ Consume /\ Event[2] = "c" /\ pend[Event[1]][1] = "idle"
          /\ pend' = [pend EXCEPT ![Event[1]] = <<"called", Event[3], Event[4]>>]
          \* what is let go may be released from now on
          /\ IF Event[3] \in {"drop", "release"} THEN Let(Event[4]) ELSE UNCHANGED svars
Done(t) == pend' = [pend EXCEPT ![t] = <<"done">>]
Effect(t) ==
  LET op == pend[t][2] a == pend[t][3] IN
  /\ pend[t][1] = "called"
  /\ \/ op \in {"writeOn", "own", "share"} /\ Use(a) /\ Done(t)
     \/ op = "msg" /\ current = 0 /\ UNCHANGED svars /\ Done(t)
     \/ op \in {"drop", "release"} /\ UNCHANGED svars /\ Done(t)
     \/ op = "destroy" /\ Close /\ Done(t)
Written == /\ Consume /\ Event[2] = "w" /\ pend[Event[1]][1] = "called" /\ pend[Event[1]][2] = "msg"
           /\ Event[3] = current /\ Event[4] = 1 /\ Event[5] = LineOf(pend[Event[1]][3])
           \* the line says when: some moment since the listener got the message
           /\ TimeOK(Event[6], pend[Event[1]][3][7], Event[7], zone)
           /\ Done(Event[1]) /\ UNCHANGED svars
Returned == /\ Consume /\ Event[2] = "r" /\ pend[Event[1]] = <<"done">>
            /\ pend' = [pend EXCEPT ![Event[1]] = <<"idle">>] /\ UNCHANGED svars
Gone == Consume /\ Event[2] = "gone" /\ Release(Event[3]) /\ UNCHANGED pend
\* at the end everything has been released
Live == Consume /\ Event[2] = "live" /\ Event[3] = 0 /\ closed /\ (\A k \in Streams : mode[k] = "none") /\ UNCHANGED <<svars, pend>>
Silent == More /\ Stay /\ Event[2] \in {"r", "w", "gone"} /\ \E t \in 1..Threads : Effect(t)
NextOne == NextTrace /\ ResetStream /\ pend' = NoCall /\ zone' = <<0, 0, 0>>
Next == Begin \/ ((Made \/ Called \/ Written \/ Returned \/ Gone \/ Live \/ Silent) /\ UNCHANGED zone) \/ NextOne
Spec == Init /\ [][Next]_vars
====
