---- MODULE AtomicAlg ----
(* Threads doing operations on one counter, each in one step (as the helpers do) or, when Split,
   in a step that reads and a step that writes: what AtomicTrace tells apart.                    *)
EXTENDS Atomics, Sequences
CONSTANTS Thr, Split, Operations, Values, Start, Most
VARIABLES val, pc, got, hist
vars == <<val, pc, got, hist>>
Init == val = Start /\ pc = [t \in Thr |-> <<"idle">>] /\ got = [t \in Thr |-> 0] /\ hist = << >>
Call(t) == /\ pc[t][1] = "idle" /\ Len(hist) < Most
           /\ \E o \in Operations : \E a, b \in Values :
                pc' = [pc EXCEPT ![t] = <<"called", o, a, b>>] /\ hist' = Append(hist, o) /\ UNCHANGED <<val, got>>
Whole(t) == /\ pc[t][1] = "called" /\ ~Split
            /\ val' = Effect(pc[t][2], pc[t][3], pc[t][4], val)[2] /\ pc' = [pc EXCEPT ![t] = <<"idle">>] /\ UNCHANGED <<got, hist>>
Read(t) == /\ pc[t][1] = "called" /\ Split
           /\ got' = [got EXCEPT ![t] = val] /\ pc' = [pc EXCEPT ![t][1] = "read"] /\ UNCHANGED <<val, hist>>
Write(t) == /\ pc[t][1] = "read"
            /\ val' = Effect(pc[t][2], pc[t][3], pc[t][4], got[t])[2] /\ pc' = [pc EXCEPT ![t] = <<"idle">>] /\ UNCHANGED <<got, hist>>
Next == \E t \in Thr : Call(t) \/ Whole(t) \/ Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars
Idle == \A t \in Thr : pc[t][1] = "idle"
\* with increments only: none is lost
Counted == Idle => val = Start + Len(hist)
\* what one thread sets and nobody else touches stays; both directions cancel
Balanced == (Idle /\ \A i \in 1..Len(hist) : hist[i] \in {"inc", "dec"}) =>
            val = Start + Len(SelectSeq(hist, LAMBDA o : o = "inc")) - Len(SelectSeq(hist, LAMBDA o : o = "dec"))
====
