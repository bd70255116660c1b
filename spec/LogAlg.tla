---- MODULE LogAlg ----
(* How the logging service starts, sleeps, wakes up and stops: one step per critical section. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Controllers, Messages, Calls
VARIABLES queue, terminated, service, controller, lock, got, left, stopped
vars == <<queue, terminated, service, controller, lock, got, left, stopped>>
\* service: none, top (about to look), asleep, work (delivering), over; lock: who starts or stops
Init == /\ queue = <<>> /\ terminated = FALSE /\ service = "none" /\ lock = 0 /\ got = <<>>
        /\ left = Messages /\ controller = [c \in Controllers |-> <<"idle", Calls>>] /\ stopped = FALSE
Awake == IF service = "asleep" THEN "top" ELSE service
Log == /\ left > 0 /\ left' = left - 1 /\ queue' = Append(queue, left) /\ service' = Awake
       /\ UNCHANGED <<terminated, controller, lock, got, stopped>>
Look == /\ service = "top"
        /\ IF terminated THEN service' = "over" /\ UNCHANGED <<queue, got>>
           ELSE IF queue = <<>> THEN service' = "asleep" /\ UNCHANGED <<queue, got>>
           ELSE service' = "work" /\ queue' = Tail(queue) /\ got' = Append(got, Head(queue))
        /\ UNCHANGED <<terminated, controller, lock, left, stopped>>
Work == service = "work" /\ service' = "top" /\ UNCHANGED <<queue, terminated, controller, lock, got, left, stopped>>
At(c, s) == controller[c][1] = s
Go(c, s) == controller' = [controller EXCEPT ![c][1] = s]
Call(c) == /\ At(c, "idle") /\ controller[c][2] > 0 /\ lock = 0 /\ lock' = c
           /\ \E s \in {"start", "stop"} : controller' = [controller EXCEPT ![c] = <<s, controller[c][2] - 1>>]
           /\ UNCHANGED <<queue, terminated, service, got, left, stopped>>
StartIt(c) == /\ At(c, "start") /\ IF service = "none" THEN service' = "top" /\ terminated' = FALSE ELSE UNCHANGED <<service, terminated>>
              /\ Go(c, "idle") /\ lock' = 0 /\ stopped' = FALSE /\ UNCHANGED <<queue, got, left>>
StopIt(c) == /\ At(c, "stop") /\ terminated' = TRUE /\ Go(c, "notify") /\ UNCHANGED <<queue, service, lock, got, left, stopped>>
Notify(c) == /\ At(c, "notify") /\ service' = Awake /\ Go(c, "join") /\ UNCHANGED <<queue, terminated, lock, got, left, stopped>>
Join(c) == /\ At(c, "join") /\ service \in {"none", "over"} /\ service' = "none" /\ Go(c, "idle") /\ lock' = 0 /\ stopped' = TRUE
           /\ UNCHANGED <<queue, terminated, got, left>>
Next == Log \/ Look \/ Work \/ \E c \in Controllers : Call(c) \/ StartIt(c) \/ StopIt(c) \/ Notify(c) \/ Join(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Look) /\ WF_vars(Work)
        /\ \A c \in Controllers : WF_vars(StartIt(c) \/ StopIt(c) \/ Notify(c) \/ Join(c))
Numbers == [i \in 1..Messages |-> Messages + 1 - i]
\* delivered in order, each once
InOrder == LET n == Len(got) IN got = SubSeq(Numbers, 1, n) /\ queue = SubSeq(Numbers, n + 1, Messages - left)
StoppedMeansStopped == stopped => service = "none"
Served == [](service # "none" /\ queue # <<>> => <>(queue = <<>> \/ service = "none"))
Returns == \A c \in Controllers : ~At(c, "idle") ~> At(c, "idle")
====
