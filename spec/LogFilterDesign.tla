---- MODULE LogFilterDesign ----
(* Whatever is called, the levels set by the program come back, and nothing shown without a filter is lost to it. *)
EXTENDS LogFilter
VARIABLES g0, d0    \* what the program set
vars == <<fvars, g0, d0>>
Init == InitFilter /\ g0 = 5 /\ d0 = 5
Next == \/ \E f \in Filters, lv \in Levels : Set(f, lv) /\ UNCHANGED <<g0, d0>>
        \/ Clear /\ UNCHANGED <<g0, d0>>
        \/ filter = <<>> /\ \E lv \in Levels : (General(lv) /\ g0' = lv /\ d0' = d0) \/ (Default(lv) /\ d0' = lv /\ g0' = g0)
Spec == Init /\ [][Next]_vars
Restored == filter = <<>> => general = g0 /\ dflt = d0
Plain(lv) == IF lv <= g0 /\ lv <= d0 THEN 1 ELSE 0
NothingLost == \A lv \in Levels, c \in Categories : Shown(lv, c) >= Plain(lv)
OnlyMatching == \A lv \in Levels, c \in Categories :
   Shown(lv, c) > Plain(lv) => filter # <<>> /\ lv <= filter[1].lv /\ Accepts(filter[1].rx, c)
AllMatching == filter # <<>> => \A lv \in Levels, c \in Categories : (lv <= filter[1].lv /\ Accepts(filter[1].rx, c)) => Shown(lv, c) >= 1
====
