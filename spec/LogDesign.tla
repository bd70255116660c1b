---- MODULE LogDesign ----
(* The properties the abstract logging service has by itself, with few messages and settings. *)
EXTENDS LogSystem, TLC
CONSTANTS MaxMessages, MaxChanges, MaxAllocated
VARIABLES sent, got, changes, allocated, added
vars == <<lvars, sent, got, changes, allocated, added>>
Init == InitWith(FALSE) /\ sent = <<>> /\ got = [i \in Listeners |-> <<>>] /\ changes = 0 /\ allocated = 0 /\ added = {}
Few == changes < MaxChanges /\ changes' = changes + 1
Alone == UNCHANGED <<sent, got, allocated, added>>
Change ==
  /\ Few
  /\ \/ \E i \in Listeners : i \notin added /\ Add(i) /\ added' = added \cup {i} /\ UNCHANGED <<sent, got, allocated>>
     \/ \E i \in Listeners : Alone /\ (Detach(i) \/ (\E b \in BOOLEAN : Enable(i, b)) \/ Level(i, 0) \/ (\E f \in {0, 1, 7} : Category(i, f)))
     \/ Alone /\ (Start \/ Stop)
Sends == Len(sent) + allocated < MaxMessages
Log == \/ /\ Sends /\ allocated < MaxAllocated /\ Allocate /\ allocated' = allocated + 1 /\ UNCHANGED <<sent, got, changes, added>>
       \/ /\ allocated > 0 /\ \E lv \in {0, 5}, c \in {0, 1} : Accept(Len(sent) + 1, lv, c, FALSE) /\ sent' = Append(sent, <<lv, c>>)
          /\ allocated' = allocated - 1 /\ UNCHANGED <<got, changes, added>>
Service == \/ (Take \/ (\E i \in pending : Adopt(i)) \/ \E g \in SUBSET active : Finish(g)) /\ UNCHANGED <<sent, got, changes, allocated, added>>
           \/ \E i \in Listeners, m \in 1..MaxMessages : Deliver(i, m) /\ got' = [got EXCEPT ![i] = Append(@, m)] /\ UNCHANGED <<sent, changes, allocated, added>>
           \/ \E i \in Listeners, m \in 1..MaxMessages : Return(i, m) /\ UNCHANGED <<sent, got, changes, allocated, added>>
Next == Change \/ Log \/ Service
Spec == Init /\ [][Next]_vars
\* every listener's messages in the order of acceptance, none twice
Increasing == \A i \in Listeners : \A a, b \in DOMAIN got[i] : a < b => got[i][a] < got[i][b]
NothingLost == Accounted(allocated)
\* a message left out by a listener added before it was, at some moment of its delivery, not accepted: with settings that never change it would be
OnlyAdded == \A i \in Listeners : got[i] # <<>> => i \in added
====
