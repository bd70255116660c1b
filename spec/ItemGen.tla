---- MODULE ItemGen ----
(* Items in variables and containers: each has the value it was given last.  Generates behaviours with what
   every item answers after each step, to be replayed on the real class.                               *)
EXTENDS ItemRules, Json
CONSTANTS Slots, Ops, Values, MaxContents, Depth, Sim
VARIABLES
  item,    \* slot -> <<>> (no item there) or <<value>>
  stk,     \* a PagedStack of items
  vec,     \* a std::vector of items
  hist
vars == <<item, stk, vec>>
gvars == <<vars, hist>>
Pick(S) == IF Sim /\ Len(hist) > 0 /\ S # {} THEN {RandomElement(S)} ELSE S
Live == {i \in Slots : item[i] # <<>>}
Free == Slots \ Live
V(i) == item[i][1]
FactsOf(x) == IF x = <<>> THEN <<>> ELSE Facts(x[1])
Obs == [i \in Slots |-> FactsOf(item'[i])]
All(s) == [n \in DOMAIN s |-> Facts(s[n])]
Log(o, a, r) == hist' = Append(hist, <<o, a, r, Obs, All(stk'), All(vec')>>)
Put(i, v) == item' = [item EXCEPT ![i] = <<v>>] /\ UNCHANGED <<stk, vec>>
Same == UNCHANGED vars
Owns(v) == v[1] \in StrTypes \cup {"big"}
InsertAt(s, k, v) == SubSeq(s, 1, k) \o <<v>> \o SubSeq(s, k + 1, Len(s))
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Reversed(s) == [n \in DOMAIN s |-> s[Len(s) + 1 - n]]
Unsupported == {"short", "float", "long", "pointer", "struct"}

Do(o) ==
  \/ o = "new" /\ \E i \in Pick(Free) : \E v \in Pick(Values) : Put(i, v) /\ Log(o, <<i, v>>, "")
  \/ o = "nil" /\ \E i \in Pick(Free) : Put(i, NilValue) /\ Log(o, <<i>>, "")
  \/ o = "copy" /\ \E i \in Pick(Live) : \E j \in Pick(Free) : \E w \in Pick(0..3) : Put(j, V(i)) /\ Log(o, <<i, j, w>>, "")
  \/ o = "assign" /\ \E i \in Pick(Live) : \E j \in Pick(Live) : Put(j, V(i)) /\ Log(o, <<i, j>>, "")
  \/ o = "set" /\ \E i \in Pick(Live) : \E v \in Pick(Values) : Put(i, v) /\ Log(o, <<i, v>>, "")
  \/ o = "destroy" /\ \E i \in Pick(Live) : item' = [item EXCEPT ![i] = <<>>] /\ UNCHANGED <<stk, vec>> /\ Log(o, <<i>>, "")
  \/ o = "swap" /\ \E i \in Pick(Live) : \E j \in Pick(Live) :
       item' = [item EXCEPT ![i] = item[j], ![j] = item[i]] /\ UNCHANGED <<stk, vec>> /\ Log(o, <<i, j>>, "")
  \/ o = "pass" /\ \E i \in Pick(Live) : Same /\ Log(o, <<i>>, FactsOf(item[i]))
  \/ o = "bad" /\ \E k \in Pick(Unsupported) : Same /\ Log(o, <<k>>, "error")
  \/ o = "badget" /\ \E i \in Pick(Live) : \E k \in Pick(Unsupported) : Same /\ Log(o, <<i, k>>, "error")
  \/ o = "badset" /\ \E i \in Pick(Live) : \E k \in Pick(Unsupported) : Same /\ Log(o, <<i, k>>, "error")
  \/ o = "churn" /\ \E i \in Pick(Live) : \E j \in Pick(Live) : Put(j, V(i)) /\ Log(o, <<i, j>>, "")
  \* no memory for it: nothing changes
  \/ o = "nocopy" /\ \E i \in Pick({x \in Live : Owns(V(x))}) : \E k \in Pick(0..1) : Same /\ Log(o, <<i, k>>, "")
  \/ o = "noassign" /\ \E i \in Pick({x \in Live : Owns(V(x))}) : \E j \in Pick(Live) : \E k \in Pick(0..1) : Same /\ Log(o, <<i, j, k>>, "")
  \/ o = "nonew" /\ \E v \in Pick({x \in Values : Owns(x)}) : \E k \in Pick(0..1) : Same /\ Log(o, <<v, k>>, "")
  \* the paged stack
  \/ o = "push" /\ Len(stk) < MaxContents /\ \E i \in Pick(Live) : stk' = Append(stk, V(i)) /\ UNCHANGED <<item, vec>> /\ Log(o, <<i>>, "")
  \/ o = "pushv" /\ Len(stk) < MaxContents /\ \E v \in Pick(Values) : stk' = Append(stk, v) /\ UNCHANGED <<item, vec>> /\ Log(o, <<v>>, "")
  \/ o = "emplace" /\ Len(stk) < MaxContents /\ \E v \in Pick(Values) : stk' = Append(stk, v) /\ UNCHANGED <<item, vec>> /\ Log(o, <<v>>, "")
  \/ o = "pop" /\ stk # <<>> /\ \E i \in Pick(Live) :
       item' = [item EXCEPT ![i] = <<stk[Len(stk)]>>] /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ UNCHANGED vec /\ Log(o, <<i>>, "")
  \/ o = "peek" /\ stk # <<>> /\ \E i \in Pick(Live) : Put(i, stk[Len(stk)]) /\ Log(o, <<i>>, "")
  \/ o = "top" /\ stk # <<>> /\ \E i \in Pick(Live) : stk' = [stk EXCEPT ![Len(stk)] = V(i)] /\ UNCHANGED <<item, vec>> /\ Log(o, <<i>>, "")
  \/ o = "discard" /\ \E n \in Pick(1..Len(stk)) : stk' = SubSeq(stk, 1, Len(stk) - n) /\ UNCHANGED <<item, vec>> /\ Log(o, <<n>>, "")
  \/ o = "clear" /\ stk' = <<>> /\ UNCHANGED <<item, vec>> /\ Log(o, <<>>, "")
  \* a vector: it copies and assigns as it likes
  \/ o = "vpush" /\ Len(vec) < MaxContents /\ \E i \in Pick(Live) : vec' = Append(vec, V(i)) /\ UNCHANGED <<item, stk>> /\ Log(o, <<i>>, "")
  \/ o = "vinsert" /\ Len(vec) < MaxContents /\ \E i \in Pick(Live) : \E k \in Pick(0..Len(vec)) :
       vec' = InsertAt(vec, k, V(i)) /\ UNCHANGED <<item, stk>> /\ Log(o, <<i, k>>, "")
  \/ o = "verase" /\ \E k \in Pick(DOMAIN vec) : vec' = Without(vec, k) /\ UNCHANGED <<item, stk>> /\ Log(o, <<k>>, "")
  \/ o = "vreverse" /\ vec' = Reversed(vec) /\ UNCHANGED <<item, stk>> /\ Log(o, <<>>, "")
  \/ o = "vself" /\ \E k \in Pick(DOMAIN vec) : \E j \in Pick(DOMAIN vec) : vec' = [vec EXCEPT ![j] = vec[k]] /\ UNCHANGED <<item, stk>> /\ Log(o, <<k, j>>, "")
  \/ o = "vcopy" /\ UNCHANGED vars /\ Log(o, <<>>, "")
  \/ o = "vclear" /\ vec' = <<>> /\ UNCHANGED <<item, stk>> /\ Log(o, <<>>, "")

GenInit == item = [i \in Slots |-> <<>>] /\ stk = <<>> /\ vec = <<>> /\ hist = <<>>
GenNext == (\E x \in Pick(DOMAIN Ops) : Do(Ops[x])) \/ (Sim /\ UNCHANGED gvars)
GenSpec == GenInit /\ [][GenNext]_gvars
EmitSim == (Sim /\ TLCGet("level") = Depth) => PrintT(ToJson(<<"T", hist, <<>>>>))
EmitStep == ~Sim => PrintT(ToJson(<<"T", hist', <<>>>>))
View == vars
TypeOK == \A i \in Slots : item[i] = <<>> \/ V(i) \in Values \cup {NilValue}
====
