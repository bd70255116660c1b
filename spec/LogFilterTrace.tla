---- MODULE LogFilterTrace ----
(* Recorded executions of the logger's filter: calls <<t, "c", op, args>> .. <<t, "r", reply>>; <<_, "out", id>>: message id
   appears on the default output; <<t, "q">>: nothing can happen any more unless t does something.  Other threads log at
   the same time if Together: then a message met by a change may appear according to either.            *)
EXTENDS Traces, Integers
CONSTANT Together
VARIABLES general, dflt, filter, saved, call, shown
F == INSTANCE LogFilter
fvars == <<general, dflt, filter, saved>>
vars == <<tr, l, fvars, call, shown>>
Init == TracesInit /\ F!InitFilter /\ call = <<>> /\ shown = <<>>
Idle == call = <<>>
Own == Event[1] = 1
Begin == Consume /\ Event[2] = "c" /\ (Own => Idle)
          /\ LET op == Event[3] a == Event[4] IN
             IF ~Own THEN UNCHANGED <<fvars, call, shown>> ELSE
             CASE op = "filter" -> F!Set(a[1], a[2]) /\ call' = << <<IF F!Valid(a[1]) THEN 1 ELSE 0>> >> /\ shown' = shown
               [] op = "clear" -> F!Clear /\ call' = << <<>> >> /\ shown' = shown
               [] op = "glevel" -> F!General(a[1]) /\ call' = << <<>> >> /\ shown' = shown
               [] op = "dlevel" -> F!Default(a[1]) /\ call' = << <<>> >> /\ shown' = shown
               [] op = "log" -> UNCHANGED fvars /\ call' = << <<>> >> /\ shown' = [i \in 1..F!Shown(a[2], a[3]) |-> a[1]]
               [] op = "levels" -> UNCHANGED <<fvars, shown>> /\ call' = << <<general, dflt>> >>
               [] op = "listeners" -> UNCHANGED <<fvars, shown>> /\ call' = << <<1 + Len(filter)>> >>
Told == Consume /\ Event[2] = "r" /\ UNCHANGED <<fvars, shown>>
        /\ IF Own THEN call # <<>> /\ Event[3] = call[1] /\ call' = <<>> ELSE UNCHANGED call
Out == Consume /\ Event[2] = "out" /\ UNCHANGED <<fvars, call>>
       /\ IF Together THEN UNCHANGED shown ELSE shown # <<>> /\ shown[1] = Event[3] /\ shown' = Tail(shown)
Quiet == Consume /\ Event[2] = "q" /\ (Together \/ shown = <<>>) /\ shown' = <<>> /\ UNCHANGED <<fvars, call>>
NextOne == NextTrace /\ F!ResetFilter /\ call' = <<>> /\ shown' = <<>>
Next == Begin \/ Told \/ Out \/ Quiet \/ NextOne
Spec == Init /\ [][Next]_vars
====
