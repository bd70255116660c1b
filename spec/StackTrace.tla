---- MODULE StackTrace ----
(* Recorded concurrent executions of one PagedStack with a real lock: every call takes effect, as an
   action of PagedStack, at one moment between its event <<t, "c", op, args>> and <<t, "r", reply>>.
   <<t, "i", page size, batch>> starts; thread t has the synchronised iterators 2t-1 and 2t.        *)
EXTENDS Traces, Integers, FiniteSets
VARIABLES geo, alive, seq, cap, shr, it, pit, nextv, pend
Its == 1..8
S == INSTANCE PagedStack WITH Stacks <- {1}, Iters <- Its, PIters <- {}, Geometries <- (1..9) \X (1..9), MaxSize <- 1000
svars == <<geo, alive, seq, cap, shr, it, pit, nextv>>
vars == <<tr, l, svars, pend>>
Idle == [t \in 1..8 |-> <<"idle">>]
Fresh(g) == /\ geo' = <<g>> /\ alive' = <<TRUE>> /\ seq' = <<<<>>>> /\ cap' = <<g[2]>> /\ shr' = <<FALSE>>
            /\ it' = [i \in Its |-> [own |-> 0, pos |-> 0, k |-> FALSE]] /\ pit' = <<>> /\ nextv' = 0
Init == TracesInit /\ S!InitWith(<< <<1, 1>> >>) /\ pend = Idle

Start == Consume /\ Event[2] = "i" /\ Fresh(<<Event[3], Event[4]>>) /\ UNCHANGED pend
Called == /\ Consume /\ Event[2] = "c" /\ pend[Event[1]][1] = "idle"
          /\ pend' = [pend EXCEPT ![Event[1]] = <<"called", Event[3], Event[4]>>] /\ UNCHANGED svars
B(b) == IF b THEN 1 ELSE 0
Done(t, r) == pend' = [pend EXCEPT ![t] = <<"done", r>>]
Effect(t) ==
  LET op == pend[t][2] a == pend[t][3] IN
  \/ op = "push" /\ S!PushVals(1, a) /\ Done(t, <<>>)
  \/ op = "pop" /\ S!Pop(1, a[1]) /\ Done(t, S!R_Pop(1, a[1]))
  \/ op = "popr" /\ S!Pop(1, a[1]) /\ Done(t, S!R_PopReverse(1, a[1]))
  \/ op = "discard" /\ S!Discard(1, a[1]) /\ Done(t, <<>>)
  \/ op = "clear" /\ S!Clear(1) /\ Done(t, <<>>)
  \/ op = "settop" /\ seq[1] # <<>> /\ seq' = <<[seq[1] EXCEPT ![Len(seq[1])] = a[1]]>> /\ UNCHANGED <<geo, alive, cap, shr, it, pit, nextv>> /\ Done(t, <<>>)
  \/ op = "peek" /\ S!Read(1) /\ Done(t, S!R_Peek(1, a[1]))
  \/ op = "peekr" /\ S!Read(1) /\ Done(t, S!R_PeekReverse(1, a[1]))
  \/ op = "peekd" /\ S!Read(1) /\ Done(t, S!R_PeekDepth(1, a[1], a[2]))
  \/ op = "size" /\ S!Read(1) /\ Done(t, <<S!R_Size(1)>>)
  \/ op = "empty" /\ S!Read(1) /\ Done(t, <<B(S!R_Empty(1))>>)
  \/ op = "stats" /\ S!Read(1) /\ Done(t, S!R_Stats(1))
  \/ op = "copy" /\ S!Read(1) /\ Done(t, seq[1])
  \/ op = "assign" /\ seq' = <<a>> /\ cap' = <<0>> /\ UNCHANGED <<geo, alive, shr, it, pit, nextv>> /\ Done(t, <<>>)
  \/ op = "shrink" /\ S!Shrink(1) /\ Done(t, <<>>)
  \/ op = "sbegin" /\ S!SyncBegin(a[1], 1, FALSE) /\ Done(t, <<>>)
  \/ op = "send" /\ S!SyncEnd(a[1], 1, FALSE) /\ Done(t, <<>>)
  \/ op = "scopy" /\ S!SyncCopy(a[1], a[2]) /\ Done(t, <<>>)
  \/ op = "sdrop" /\ S!SyncDrop(a[1]) /\ Done(t, <<>>)
  \/ op = "seq" /\ UNCHANGED svars /\ Done(t, <<B(S!R_SyncEq(a[1], a[2]))>>)
  \/ op = "sget" /\ S!SyncGet(a[1]) /\ Done(t, <<S!R_SyncGet(a[1])>>)
  \/ op = "snext" /\ S!SyncNext(a[1]) /\ Done(t, <<>>)
  \/ op = "sprev" /\ S!SyncPrev(a[1]) /\ Done(t, <<>>)
  \/ op \in {"sget", "snext", "sprev"} /\ S!SyncFail(a[1]) /\ Done(t, <<-1, -1>>)
\* (it is enough to let calls take effect when one of them is about to return)
Effective == /\ More /\ Stay /\ Event[2] = "r" /\ pend[Event[1]][1] = "called"
             /\ \E t \in 1..Threads : pend[t][1] = "called" /\ Effect(t)
Returned == /\ Consume /\ Event[2] = "r" /\ pend[Event[1]][1] = "done"
            /\ LET r == pend[Event[1]][2] IN
                 \* (after an assignment the number of pages is not known)
                 IF Len(r) = 4 /\ Len(Event[3]) = 4 /\ r[1] = 0 THEN Tail(Event[3]) = Tail(r) ELSE Event[3] = r
            /\ pend' = [pend EXCEPT ![Event[1]] = <<"idle">>] /\ UNCHANGED svars
NextOne == NextTrace /\ Fresh(<<1, 1>>) /\ pend' = Idle
Next == Start \/ Called \/ Effective \/ Returned \/ NextOne
Spec == Init /\ [][Next]_vars
====
