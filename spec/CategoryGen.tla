---- MODULE CategoryGen ----
(* Behaviours of one listener and what it is told: expressions set (valid or not), levels, the switch, messages of every category and level. *)
EXTENDS Category, Json
CONSTANTS Exprs,     \* a sequence of expressions
          Wrong,     \* texts that are not expressions
          Names,     \* a sequence of names
          Walk,      \* the number of steps of a random behaviour; 0: every expression, with every name
          Bits       \* the levels
VARIABLES expr, text, level, general, on, hist, step
vars == <<expr, text, level, general, on, hist, step>>
None == <<"none">>
Init == /\ level = 5 /\ general = 5 /\ on = TRUE /\ step = 0
        /\ IF Walk = 0 THEN \E n \in DOMAIN Exprs : expr = Exprs[n] /\ text = Text(Exprs[n]) /\ hist = << <<"cat", Text(Exprs[n]), 1>> >>
           ELSE expr = None /\ text = "" /\ hist = <<>>
B(b) == IF b THEN 1 ELSE 0
\* every name in a row
All == /\ Walk = 0 /\ step = 0 /\ step' = 1
       /\ hist' = hist \o [n \in DOMAIN Names |-> <<"match", Join(Names[n]), B(Passes(expr, Names[n]))>>]
       /\ UNCHANGED <<expr, text, level, general, on>>
       /\ PrintT(ToJson(<<"T", hist'>>))
Do(h) == hist' = Append(hist, h) /\ step' = step + 1
Set == \E n \in {RandomElement(DOMAIN Exprs \cup {step * 0 + 1})} : expr' = Exprs[n] /\ text' = Text(Exprs[n]) /\ Do(<<"cat", Text(Exprs[n]), 1>>) /\ UNCHANGED <<level, general, on>>
\* the one in force stays
Fail == \E n \in {RandomElement(DOMAIN Wrong \cup {step * 0 + 1})} : Do(<<"cat", Wrong[n], 0>>) /\ UNCHANGED <<expr, text, level, general, on>>
Get == Do(<<"get", text>>) /\ UNCHANGED <<expr, text, level, general, on>>
Lv == \E v \in {RandomElement(Bits \cup {step * 0})} : Do(<<"level", v>>) /\ level' = v /\ UNCHANGED <<expr, text, general, on>>
Gl == \E v \in {RandomElement(Bits \cup {step * 0})} : Do(<<"glevel", v>>) /\ general' = v /\ UNCHANGED <<expr, text, level, on>>
Sw == Do(<<"on", B(~on)>>) /\ on' = ~on /\ UNCHANGED <<expr, text, level, general>>
Match == \E n \in {RandomElement(DOMAIN Names \cup {step * 0 + 1})} : Do(<<"match", Join(Names[n]), B(Passes(expr, Names[n]))>>) /\ UNCHANGED <<expr, text, level, general, on>>
Log == \E n \in {RandomElement(DOMAIN Names \cup {step * 0 + 1})} : \E v \in {RandomElement((0..5) \cup {step * 0})} :
         /\ Do(<<"log", Join(Names[n]), v, B(v <= general /\ v <= level /\ on /\ Passes(expr, Names[n]))>>)
         /\ UNCHANGED <<expr, text, level, general, on>>
OneStep == \E k \in {RandomElement(1..16 \cup {step * 0 + 1})} :
  CASE k \in 1..3 -> Set [] k = 4 -> Fail [] k = 5 -> Get [] k = 6 -> Lv [] k = 7 -> (IF step % 3 = 0 THEN Gl ELSE Log) [] k = 8 -> Sw [] k \in 9..11 -> Match [] OTHER -> Log
Step == Walk > 0 /\ step < Walk /\ OneStep
Stop == Walk > 0 /\ step = Walk /\ step' = step + 1 /\ PrintT(ToJson(<<"T", hist>>)) /\ UNCHANGED <<expr, text, level, general, on, hist>>
Spec == Init /\ [][All \/ Step \/ Stop]_vars
\* a name that matches begins with a match of its beginning (nothing comes from nowhere); at most the whole is matched
Sane == \A n \in DOMAIN Names : Walk = 0 /\ step = 0 => Ends(expr, Names[n], 0) \subseteq 0..Len(Names[n])
\* doing something twice, or not at all
Laws == Walk = 0 /\ step = 0 => \A n \in DOMAIN Names :
          /\ Matches(<<"or", expr, expr>>, Names[n]) = Matches(expr, Names[n])
          /\ Matches(<<"star", <<"star", expr>> >>, Names[n]) = Matches(<<"star", expr>>, Names[n])
          /\ Matches(<<"plus", expr>>, Names[n]) = Matches(<<"seq", expr, <<"star", expr>> >>, Names[n])
          /\ Matches(<<"rep", expr, 0, 1>>, Names[n]) = Matches(<<"opt", expr>>, Names[n])
====
