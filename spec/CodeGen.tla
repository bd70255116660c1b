---- MODULE CodeGen ----
(* Compiled code in variables: each renders as the source it was built from. <<"text", t>>: t is a sequence of <<piece, number>>;
   <<"moved">>: it has been moved from, and is good for anything, but what it renders as is open.            *)
EXTENDS Texts, FiniteSets, Json
CONSTANTS Slots, Ops, Sources, Streams, Depth, Sim
VARIABLES code, hist
gvars == <<code, hist>>
Pick(S) == IF Sim /\ Len(hist) > 0 /\ S # {} THEN {RandomElement(S)} ELSE S
None == <<"none">>
Moved == <<"moved">>
Text(t) == <<"text", t>>
Live == {i \in Slots : code[i] # None}
Free == Slots \ Live
Obs == code'
Log(o, a, r) == hist' = Append(hist, <<o, a, r, Obs>>)
Set(i, c) == code' = [code EXCEPT ![i] = c]
\* a stream is <<text>>, or <<white space, piece without any, number, the rest>>
Compiled(s) == Text(IF Len(s) = 1 THEN << <<FirstToken(s[1]), 1>> >> ELSE << <<s[2], s[3]>> >>)
Do(o) ==
  \/ o = "new" /\ \E i \in Pick(Free) : \E t \in Pick(Sources) : \E w \in Pick(0..2) : Set(i, Text(t)) /\ Log(o, <<i, t, w>>, "")
  \/ o = "empty" /\ \E i \in Pick(Free) : Set(i, Text(<<>>)) /\ Log(o, <<i>>, "")
  \/ o = "compile" /\ \E i \in Pick(Free) : \E s \in Pick(Streams) : Set(i, Compiled(s)) /\ Log(o, <<i, s>>, "")
  \/ o = "recompile" /\ \E i \in Pick(Live) : \E s \in Pick(Streams) : Set(i, Compiled(s)) /\ Log(o, <<i, s>>, "")
  \/ o = "copy" /\ \E i \in Pick(Live) : \E j \in Pick(Free) : Set(j, code[i]) /\ Log(o, <<i, j>>, "")
  \/ o = "assign" /\ \E i \in Pick(Live) : \E j \in Pick(Live) : Set(j, code[i]) /\ Log(o, <<i, j>>, "")
  \/ o = "move" /\ \E i \in Pick(Live) : \E j \in Pick(Free) : code' = [code EXCEPT ![j] = code[i], ![i] = Moved] /\ Log(o, <<i, j>>, "")
  \/ o = "moveassign" /\ \E i \in Pick(Live) : \E j \in Pick(Live) :
       code' = (IF i = j THEN [code EXCEPT ![i] = Moved] ELSE [code EXCEPT ![j] = code[i], ![i] = Moved]) /\ Log(o, <<i, j>>, "")
  \/ o = "swap" /\ \E i \in Pick(Live) : \E j \in Pick(Live) : code' = [code EXCEPT ![i] = code[j], ![j] = code[i]] /\ Log(o, <<i, j>>, "")
  \/ o = "destroy" /\ \E i \in Pick(Live) : Set(i, None) /\ Log(o, <<i>>, "")
  \/ o = "pass" /\ \E i \in Pick(Live) : UNCHANGED code /\ Log(o, <<i>>, code[i])
  \/ o = "list" /\ UNCHANGED code /\ Log(o, <<>>, "")     \* through a vector and back
  \/ o = "churn" /\ \E i \in Pick(Live) : \E j \in Pick(Live) : Set(j, code[i]) /\ Log(o, <<i, j>>, "")
GenInit == code = [i \in Slots |-> None] /\ hist = <<>>
GenNext == (\E x \in Pick(DOMAIN Ops) : Do(Ops[x])) \/ (Sim /\ UNCHANGED gvars)
GenSpec == GenInit /\ [][GenNext]_gvars
EmitSim == (Sim /\ TLCGet("level") = Depth) => PrintT(ToJson(<<"T", hist, <<>>>>))
EmitStep == ~Sim => PrintT(ToJson(<<"T", hist', <<>>>>))
View == code
Whole == \A i \in Slots : code[i] \in {None, Moved} \/ code[i][1] = "text"
RECURSIVE Strings(_, _)
Strings(a, n) == IF n = 0 THEN {""} ELSE LET m == Strings(a, n - 1) IN m \cup {c \o s : c \in a, s \in m}
====
