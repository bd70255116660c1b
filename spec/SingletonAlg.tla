---- MODULE SingletonAlg ----
(* First use of a static local object by several threads: the guard lets one of them construct it,
   the others wait.  Constructing takes several steps; it may fail and be tried again by another. *)
EXTENDS Naturals, FiniteSets
CONSTANTS Thr, Parts, Fails
VARIABLES guard, parts, pc, seen, built, failed
vars == <<guard, parts, pc, seen, built, failed>>
Init == guard = "none" /\ parts = 0 /\ pc = [t \in Thr |-> "idle"] /\ seen = [t \in Thr |-> 0] /\ built = 0 /\ failed = 0
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Begin(t) == pc[t] = "idle" /\ Go(t, "acquire") /\ UNCHANGED <<guard, parts, seen, built, failed>>
Acquire(t) == /\ pc[t] = "acquire" /\ guard # "busy"
              /\ IF guard = "ready" THEN Go(t, "use") /\ UNCHANGED <<guard, parts, built>>
                 ELSE guard' = "busy" /\ parts' = 0 /\ built' = built + 1 /\ Go(t, "build")
              /\ UNCHANGED <<seen, failed>>
Build(t) == pc[t] = "build" /\ parts < Parts /\ parts' = parts + 1 /\ UNCHANGED <<guard, pc, seen, built, failed>>
Fail(t) == pc[t] = "build" /\ failed < Fails /\ failed' = failed + 1 /\ built' = built - 1 /\ guard' = "none" /\ Go(t, "idle") /\ UNCHANGED <<parts, seen>>
Release(t) == pc[t] = "build" /\ parts = Parts /\ guard' = "ready" /\ Go(t, "use") /\ UNCHANGED <<parts, seen, built, failed>>
Use(t) == pc[t] = "use" /\ seen' = [seen EXCEPT ![t] = parts] /\ Go(t, "done") /\ UNCHANGED <<guard, parts, built, failed>>
Step(t) == Begin(t) \/ Acquire(t) \/ Build(t) \/ Fail(t) \/ Release(t) \/ Use(t)
Next == \E t \in Thr : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(Step(t))
Whole == \A t \in Thr : pc[t] = "done" => seen[t] = Parts
Once == built <= 1
Served == \A t \in Thr : <>(pc[t] = "done")
====
