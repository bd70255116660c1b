---- MODULE LogFilter ----
(* The logger's category filter: levels are changed as long as it is set. *)
EXTENDS Integers, Sequences, FiniteSets, LogPatterns
VARIABLES
  general, dflt,   \* the general level and the default listener's
  filter,          \* the filter set: <<>> or <<[rx, lv]>>
  saved            \* the levels to go back to: <<general, dflt>>
fvars == <<general, dflt, filter, saved>>
InitFilter == general = 5 /\ dflt = 5 /\ filter = <<>> /\ saved = <<5, 5>>
ResetFilter == general' = 5 /\ dflt' = 5 /\ filter' = <<>> /\ saved' = <<5, 5>>
\* the levels without the filter
Base == IF filter = <<>> THEN <<general, dflt>> ELSE saved
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Set(f, lv) == IF ~Valid(f) THEN UNCHANGED fvars
              ELSE /\ saved' = Base /\ filter' = <<[rx |-> f, lv |-> lv]>>
                   /\ general' = Max(Base[1], lv) /\ dflt' = Min(Base[1], Base[2])
Clear == general' = Base[1] /\ dflt' = Base[2] /\ filter' = <<>> /\ saved' = saved
General(lv) == general' = lv /\ UNCHANGED <<dflt, filter, saved>>
Default(lv) == dflt' = lv /\ UNCHANGED <<general, filter, saved>>
\* how often a message appears on the default output
Shown(lv, c) == IF lv > general THEN 0
                ELSE (IF lv <= dflt THEN 1 ELSE 0) + (IF filter # <<>> /\ lv <= filter[1].lv /\ Accepts(filter[1].rx, c) THEN 1 ELSE 0)
====
