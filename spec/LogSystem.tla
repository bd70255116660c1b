---- MODULE LogSystem ----
(* The logging service.  Messages are accepted into a queue, and one after the other each is given to the
   active listeners whose filters accept it; listeners come and go, their filters and the general level
   change, the service stops and starts at any time.  Message objects come from a pool.

   A filter is applied to a message at some moment between the message's leaving the queue and the end of
   its delivery, and its parts (detached, enabled, level, category) not necessarily at the same one: ok
   collects, for the message being delivered, the parts that let it through at some moment, bad the
   listeners some part of whose filter rejected it at some moment.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, LogPatterns
CONSTANTS Listeners, PoolSize
Parts == {"detached", "enabled", "level", "category"}

VARIABLES
  general,   \* the general level
  running,
  queue,     \* of [m, lv, cat, must]; must: the listeners added before it was accepted
  cur,       \* the message being delivered, or none: <<>> or <<record>>
  pending, active,   \* sets of listeners
  lst,       \* the settings of each listener
  leaving,   \* the listeners that had been detached when the current message left the queue
  done, ok, bad, busy,
  pool, created, discarded, given, longest, received
lvars == <<general, running, queue, cur, pending, active, lst, leaving, done, ok, bad, busy, pool, created, discarded, given, longest, received>>
flow == <<queue, cur, leaving, done, busy>>
store == <<pool, created, discarded, given, longest, received>>

NewListener == [det |-> FALSE, on |-> TRUE, lv |-> 5, rx |-> 0]
InitWith(now) ==
  /\ general = 5 /\ running = now /\ queue = <<>> /\ cur = <<>> /\ pending = {} /\ active = {}
  /\ lst = [i \in Listeners |-> NewListener] /\ leaving = {} /\ done = {} /\ busy = {}
  /\ ok = [i \in Listeners |-> {}] /\ bad = {}
  /\ pool = PoolSize /\ created = 0 /\ discarded = 0 /\ given = 0 /\ longest = 0 /\ received = 0
Reset(now) ==
  /\ general' = 5 /\ running' = now /\ queue' = <<>> /\ cur' = <<>> /\ pending' = {} /\ active' = {}
  /\ lst' = [i \in Listeners |-> NewListener] /\ leaving' = {} /\ done' = {} /\ busy' = {}
  /\ ok' = [i \in Listeners |-> {}] /\ bad' = {}
  /\ pool' = PoolSize /\ created' = 0 /\ discarded' = 0 /\ given' = 0 /\ longest' = 0 /\ received' = 0

Through(s, m) == {p \in Parts : CASE p = "detached" -> ~s.det [] p = "enabled" -> s.on
                                  [] p = "level" -> s.lv >= m.lv [] p = "category" -> Accepts(s.rx, m.cat)}
\* what the filters say now about message m, added to what they said before
Judge(m, s, who, ok0, bad0) ==
  /\ ok' = [i \in Listeners |-> IF i \in who THEN ok0[i] \cup Through(s[i], m) ELSE ok0[i]]
  /\ bad' = bad0 \cup {i \in who : Through(s[i], m) # Parts}
NoOk == [i \in Listeners |-> {}]

\* ---- settings
Set(i, s) == /\ lst' = [lst EXCEPT ![i] = s]
             /\ IF cur = <<>> THEN UNCHANGED <<ok, bad>> ELSE Judge(cur[1], lst', active \cup pending, ok, bad)
             /\ UNCHANGED <<general, running, pending, active, flow, store>>
Detach(i) == Set(i, [lst[i] EXCEPT !.det = TRUE])
Enable(i, b) == Set(i, [lst[i] EXCEPT !.on = b])
Level(i, v) == Set(i, [lst[i] EXCEPT !.lv = v])
Category(i, f) == IF Valid(f) THEN Set(i, [lst[i] EXCEPT !.rx = f]) ELSE UNCHANGED <<general, running, queue, cur, pending, active, lst, leaving, done, ok, bad, busy, pool, created, discarded, given, longest, received>>
GeneralLevel(v) == general' = v /\ UNCHANGED <<running, pending, active, lst, ok, bad, flow, store>>
Add(i) == /\ pending' = pending \cup {i}
          /\ IF cur = <<>> THEN UNCHANGED <<ok, bad>> ELSE Judge(cur[1], lst, {i}, ok, bad)
          /\ UNCHANGED <<general, running, active, lst, flow, store>>
\* ---- messages
Enabled(lv) == lv <= general
Allocate == /\ IF pool > 0 THEN pool' = pool - 1 /\ UNCHANGED created ELSE created' = created + 1 /\ UNCHANGED pool
            /\ UNCHANGED <<general, running, pending, active, lst, ok, bad, flow, discarded, given, longest, received>>
Accept(m, lv, cat, own) ==
  /\ queue' = Append(queue, [m |-> m, lv |-> lv, cat |-> cat, must |-> pending \cup active])
  /\ longest' = IF Len(queue') > longest THEN Len(queue') ELSE longest
  /\ given' = IF own THEN given + 1 ELSE given
  /\ UNCHANGED <<general, running, pending, active, lst, cur, leaving, done, ok, bad, busy, pool, created, discarded, received>>
Take == /\ running /\ cur = <<>> /\ queue # <<>>
        /\ cur' = <<Head(queue)>> /\ queue' = Tail(queue)
        /\ active' = active \cup pending /\ pending' = {}
        /\ leaving' = {i \in active' : lst[i].det} /\ done' = {} /\ busy' = {}
        /\ Judge(Head(queue), lst, active', NoOk, {})
        /\ received' = received + 1
        /\ UNCHANGED <<general, running, lst, pool, created, discarded, given, longest>>
\* a listener added while a message is delivered may get it
Adopt(i) == /\ cur # <<>> /\ i \in pending /\ pending' = pending \ {i} /\ active' = active \cup {i}
            /\ UNCHANGED <<general, running, lst, ok, bad, flow, store>>
Deliver(i, m) == /\ cur # <<>> /\ cur[1].m = m /\ i \in active \ done /\ busy = {} /\ ok[i] = Parts
                 /\ done' = done \cup {i} /\ busy' = {i}
                 /\ UNCHANGED <<general, running, queue, cur, pending, active, lst, leaving, ok, bad, store>>
Return(i, m) == /\ cur # <<>> /\ cur[1].m = m /\ i \in busy /\ busy' = {}
                /\ UNCHANGED <<general, running, queue, cur, pending, active, lst, leaving, done, ok, bad, store>>
\* the listeners that were detached are let go
Finish(gone) ==
  /\ cur # <<>> /\ busy = {}
  /\ \A i \in cur[1].must \cap active : i \in done \cup bad
  /\ leaving \cap active \subseteq gone /\ gone \subseteq {i \in active : lst[i].det}
  /\ active' = active \ gone
  /\ cur' = <<>> /\ leaving' = {} /\ done' = {} /\ ok' = NoOk /\ bad' = {}
  /\ IF pool < PoolSize THEN pool' = pool + 1 /\ UNCHANGED discarded ELSE discarded' = discarded + 1 /\ UNCHANGED pool
  /\ UNCHANGED <<general, running, queue, pending, lst, busy, created, given, longest, received>>
\* a listener nobody else holds goes away; if it was still active, it has been detached
Drop(i) == /\ i \notin busy /\ (i \in pending \cup active => lst[i].det)
           /\ active' = active \ {i} /\ pending' = pending \ {i}
           /\ UNCHANGED <<general, running, lst, ok, bad, flow, store>>
\* ---- the service
Start == running' = TRUE /\ UNCHANGED <<general, pending, active, lst, ok, bad, flow, store>>
Stop == running' = FALSE /\ UNCHANGED <<general, pending, active, lst, ok, bad, flow, store>>
\* gone for good, with all it held
End == Reset(FALSE)

\* ---- what can be asked
Idle == cur = <<>>
Quiet == Idle /\ (running => queue = <<>>)
Diagnostics == <<pool, longest, received, created, discarded, Cardinality(pending), Cardinality(active), Cardinality({i \in active : lst[i].on})>>
Holds(i) == IF i \in pending \cup active THEN 1 ELSE 0

\* ---- invariants
TypeOK == /\ general \in Levels /\ running \in BOOLEAN /\ pending \subseteq Listeners /\ active \subseteq Listeners
          /\ pool \in 0..PoolSize
Outside == Len(queue) + Len(cur)
Accounted(allocated) == pool + allocated + Outside = PoolSize + created + given - discarded
====
