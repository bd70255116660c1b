---- MODULE HB ----
(* The happens-before relation of the C++ memory model, over the events of an execution, kept
   with vector clocks: which accesses are ordered by the synchronisation the program does
   (starting and joining threads, locks, atomic operations with their memory orders, fences)
   and which are not.  Two accesses to the same memory, one of them a write, not both atomic,
   and not ordered, are a data race.

   An event is a tuple  <<kind, thread, ...>>:
     <<"R"|"W"|"F", t, cell, ...>>      plain read, plain write, release of the memory
     <<"AR"|"AW"|"RMW"|"CASF", t, cell, order, ...>>  atomic load, store, read-modify-write,
                                         compare-and-exchange that did not store
     <<"FN", t, order>>                  fence
     <<"L"|"U"|"RL"|"RU", t, lock>>      exclusive and shared locking and unlocking
     <<"S"|"J", t, u>>                   thread t starts / has waited for the end of thread u
   Orders are "rlx", "acq", "rel", "ar", "sc".                                              *)
EXTENDS Naturals, Sequences

LOCAL Max(a, b) == IF a > b THEN a ELSE b
VCJoin(a, b) == [i \in DOMAIN a |-> Max(a[i], b[i])]
VCLeq(a, b) == \A i \in DOMAIN a : a[i] <= b[i]

\* T threads, K cells, N locks
HBInit(T, K, N) ==
  LET Z == [i \in 1..T |-> 0] IN
  [ C  |-> [t \in 1..T |-> [i \in 1..T |-> IF i = t THEN 1 ELSE 0]],   \* what each thread knows
    P  |-> [t \in 1..T |-> Z],         \* what it would know after an acquire fence
    F  |-> [t \in 1..T |-> Z],         \* what it knew at its last release fence
    A  |-> [c \in 1..K |-> Z],         \* what an acquire load of the cell learns
    W  |-> [c \in 1..K |-> Z],         \* plain writes, plain reads, atomic writes and reads
    R  |-> [c \in 1..K |-> Z],
    AW |-> [c \in 1..K |-> Z],
    AR |-> [c \in 1..K |-> Z],
    LW |-> [k \in 1..N |-> Z],
    LR |-> [k \in 1..N |-> Z] ]

Acquires(o) == o \in {"acq", "ar", "sc"}
Releases(o) == o \in {"rel", "ar", "sc"}

\* Whether the event is ordered after all the earlier ones it conflicts with.
Ordered(h, e) ==
  LET t == e[2] IN
  CASE e[1] = "R"             -> /\ VCLeq(h.W[e[3]], h.C[t])
                                 /\ VCLeq(h.AW[e[3]], h.C[t])
    [] e[1] \in {"W", "F"}    -> /\ VCLeq(h.W[e[3]], h.C[t])
                                 /\ VCLeq(h.R[e[3]], h.C[t])
                                 /\ VCLeq(h.AW[e[3]], h.C[t])
                                 /\ VCLeq(h.AR[e[3]], h.C[t])
    [] e[1] \in {"AR", "CASF"} -> VCLeq(h.W[e[3]], h.C[t])
    [] e[1] \in {"AW", "RMW"} -> /\ VCLeq(h.W[e[3]], h.C[t])
                                 /\ VCLeq(h.R[e[3]], h.C[t])
    [] OTHER -> TRUE

LOCAL Tick(C, t) == [C EXCEPT ![t][t] = @ + 1]

\* The relation after the event.
HBNext(h, e) ==
  LET t == e[2]
      now == h.C[t][t]
      Load(o, c) == IF Acquires(o) THEN [h EXCEPT !.C[t] = VCJoin(@, h.A[c]), !.AR[c][t] = now]
                                   ELSE [h EXCEPT !.P[t] = VCJoin(@, h.A[c]), !.AR[c][t] = now]
  IN
  CASE e[1] = "R"  -> [h EXCEPT !.R[e[3]][t] = now]
    [] e[1] \in {"W", "F"} -> [h EXCEPT !.W[e[3]][t] = now]
    [] e[1] \in {"AR", "CASF"} -> Load(e[4], e[3])
    [] e[1] = "AW" ->
         [h EXCEPT !.A[e[3]] = IF Releases(e[4]) THEN h.C[t] ELSE h.F[t],
                   !.AW[e[3]][t] = now,
                   !.C = IF Releases(e[4]) THEN Tick(@, t) ELSE @]
    [] e[1] = "RMW" ->
         LET g == Load(e[4], e[3]) IN
         [g EXCEPT !.A[e[3]] = VCJoin(@, IF Releases(e[4]) THEN g.C[t] ELSE g.F[t]),
                   !.AW[e[3]][t] = now,
                   !.C = IF Releases(e[4]) THEN Tick(@, t) ELSE @]
    [] e[1] = "FN" ->
         LET g == IF Acquires(e[3]) THEN [h EXCEPT !.C[t] = VCJoin(@, h.P[t])] ELSE h IN
         IF Releases(e[3]) THEN [g EXCEPT !.F[t] = g.C[t], !.C = Tick(@, t)] ELSE g
    [] e[1] = "L"  -> [h EXCEPT !.C[t] = VCJoin(VCJoin(@, h.LW[e[3]]), h.LR[e[3]])]
    [] e[1] = "RL" -> [h EXCEPT !.C[t] = VCJoin(@, h.LW[e[3]])]
    [] e[1] = "U"  -> [h EXCEPT !.LW[e[3]] = h.C[t], !.C = Tick(@, t)]
    [] e[1] = "RU" -> [h EXCEPT !.LR[e[3]] = VCJoin(@, h.C[t]), !.C = Tick(@, t)]
    [] e[1] = "S"  -> [h EXCEPT !.C = Tick([@ EXCEPT ![e[3]] = VCJoin(@, h.C[t])], t)]
    [] e[1] = "J"  -> [h EXCEPT !.C[t] = VCJoin(@, h.C[e[3]])]
    [] OTHER -> h
====
