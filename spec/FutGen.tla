---- MODULE FutGen ----
(* Behaviours of Fut for the replay: of programs given one by one, or drawn at random. *)
EXTENDS Fut
CONSTANTS Sim, Shapes, Acts, Tails, Names, Lines
Behaviour == <<"T", <<prog.mode, prog.argv0, prog.args, [j \in 1..NCases |-> LET c == prog.cases[j] IN <<c.comp, c.name, c.setup, c.body, c.tear>>]>>,
               <<[bad |-> opt.bad, codes |-> codes, evs |-> evs, out |-> out, err |-> err, verdicts |-> Verdicts, xml |-> Xml, v |-> opt.v, cap |-> opt.cap]>> >>
\* a random script: any number of actions, and one that may end it
OneOf(seq) == seq[RandomElement(DOMAIN seq)]
RandomScript(n) == [j \in 1..n |-> OneOf(Acts)] \o OneOf(Tails)
RandomCase(nm) == LET s == OneOf(Shapes) IN [comp |-> nm[1], name |-> nm[2], setup |-> RandomScript(RandomElement(0..s[1])), body |-> RandomScript(RandomElement(0..s[2])), tear |-> RandomScript(RandomElement(0..s[3]))]
RECURSIVE Distinct(_, _)
Distinct(n, S) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == CHOOSE y \in {RandomElement(S)} : TRUE IN <<x>> \o Distinct(n - 1, S \ {x})
Draw == [mode |-> "main", cases |-> <<>>]
Pick ==
  /\ st = "draw"
  \* (a bound that depends on the state: TLC evaluates those that do not only once)
  /\ \E ln \in {TLCEval(IF st = "draw" THEN OneOf(Lines) ELSE Lines[1])} : \E n \in {RandomElement(1..6)} : \E nms \in {TLCEval(Distinct(n, Names))} :
       \E cs \in {TLCEval([j \in DOMAIN nms |-> RandomCase(nms[j])])} :
         \E ts \in {TLCEval([j \in DOMAIN ln.args |-> IF ln.args[j] = "?" THEN Full(cs[RandomElement(DOMAIN cs)]) ELSE ln.args[j]])} :
           prog' = [mode |-> ln.mode, argv0 |-> ln.argv0, base |-> ln.base, args |-> ts, cases |-> cs]
  /\ st' = "parse"
  /\ opt' = [opt EXCEPT !.name = prog'.base, !.id = prog'.base]
  /\ UNCHANGED <<queue, k, ph, i, cur, evs, out, err, results, codes, plan>>
SimInit ==
  /\ prog = [mode |-> "main", argv0 |-> "", base |-> "", args |-> <<>>, cases |-> <<>>] /\ st = "draw"
  /\ queue = <<>> /\ k = 0 /\ ph = "" /\ i = 0 /\ cur = Fresh
  /\ opt = [v |-> 2, cap |-> TRUE, sel |-> <<>>, xml |-> FALSE, name |-> "", id |-> "", bad |-> ""]
  /\ evs = <<>> /\ out = <<>> /\ err = <<>> /\ results = <<>> /\ codes = <<>> /\ plan = <<>>
Said == st' = "done" => PrintT(ToJson(Behaviour'))
Again == st = "done" /\ Sim /\ st' = "draw" /\ prog' = [prog EXCEPT !.cases = <<>>, !.args = <<>>] /\ queue' = <<>> /\ k' = 0 /\ ph' = "" /\ i' = 0 /\ cur' = Fresh
         /\ opt' = [v |-> 2, cap |-> TRUE, sel |-> <<>>, xml |-> FALSE, name |-> "", id |-> "", bad |-> ""]
         /\ evs' = <<>> /\ out' = <<>> /\ err' = <<>> /\ results' = <<>> /\ codes' = <<>> /\ plan' = <<>>
GenNext == Pick \/ ((Begin \/ Over) /\ Said) \/ Step \/ Again
GenSpec == (IF Sim THEN SimInit ELSE Init) /\ [][GenNext]_vars
====
