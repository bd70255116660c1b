---- MODULE Logger ----
(* Log statements, composed by each thread for itself.  A statement (or block) that is open is a frame of its
   thread's stack: a statement met while another one is composed is a message of its own.  Only statements
   whose level is enabled compose anything.                                                             *)
EXTENDS Integers, Sequences, TLC
CONSTANT Writers, MinLevel     \* MinLevel: what is compiled in
VARIABLES
  general,   \* the general level
  category,  \* of each thread
  stack,     \* of each thread: the statements open, innermost last
  due        \* of each thread: the messages still to be delivered
lgvars == <<general, category, stack, due>>

Plain == [hex |-> FALSE, width |-> 0, star |-> FALSE, alpha |-> FALSE, prec |-> FALSE, pos |-> FALSE, comma |-> FALSE, lost |-> FALSE, mask |-> FALSE]
InitLogger == general = 5 /\ category = [t \in Writers |-> ""] /\ stack = [t \in Writers |-> <<>>] /\ due = [t \in Writers |-> <<>>]
ResetLogger == general' = 5 /\ category' = [t \in Writers |-> ""] /\ stack' = [t \in Writers |-> <<>>] /\ due' = [t \in Writers |-> <<>>]

\* ---- texts
RECURSIVE Fill(_, _)
Fill(n, c) == IF n <= 0 THEN "" ELSE c \o Fill(n - 1, c)
Pad(s, f) == Fill(f.width - Len(s), IF f.star THEN "*" ELSE " ") \o s
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN Digits[n + 1] ELSE Hex(n \div 16) \o Digits[(n % 16) + 1]
Number(n, f) == IF f.hex THEN Hex(n) ELSE (IF f.pos THEN "+" ELSE "") \o ToString(n)
Flag(b, f) == IF f.alpha THEN (IF b = 1 THEN "true" ELSE "false") ELSE Number(b, f)
Real(f) == (IF f.pos THEN "+" ELSE "") \o "3" \o (IF f.comma THEN "," ELSE ".") \o (IF f.prec THEN "14" ELSE "14159")

\* ---- statements
Enabled(lv) == lv <= general /\ lv <= MinLevel
Depth(t) == Len(stack[t])
Top(t) == stack[t][Depth(t)]
Put(t, fr) == stack' = [stack EXCEPT ![t][Depth(t)] = fr]
Open(t, block, lv, line) ==
  /\ stack' = [stack EXCEPT ![t] = Append(@, [on |-> Enabled(lv), block |-> block, body |-> FALSE, told |-> FALSE, lv |-> lv, line |-> line, text |-> "", cat |-> "", fmt |-> Plain])]
  /\ UNCHANGED <<general, category, due>>
Body(t) == /\ Depth(t) > 0 /\ Top(t).on /\ Top(t).block /\ ~Top(t).body
           /\ Put(t, [Top(t) EXCEPT !.body = TRUE]) /\ UNCHANGED <<general, category, due>>
\* an operand is met: only statements that are on stream it
Operand(t, kind, arg) ==
  /\ Depth(t) > 0 /\ ~Top(t).told
  /\ LET fr == Top(t) f == fr.fmt
         txt == CASE kind = "s" -> arg [] kind = "n" -> Number(arg, f) [] kind = "b" -> Flag(arg, f) [] kind = "f" -> Real(f) [] kind = "state" -> (IF f.mask THEN "E" ELSE "e") [] OTHER -> ""
     IN IF ~fr.on THEN UNCHANGED stack
        ELSE Put(t, CASE kind \in {"s", "n", "b", "f", "state"} -> IF f.lost THEN fr ELSE [fr EXCEPT !.text = @ \o Pad(txt, f), !.fmt.width = 0]
                      [] kind = "cat" -> [fr EXCEPT !.cat = arg]
                      [] kind = "hex" -> [fr EXCEPT !.fmt.hex = TRUE]
                      [] kind = "w6" -> [fr EXCEPT !.fmt.width = 6]
                      [] kind = "star" -> [fr EXCEPT !.fmt.star = TRUE]
                      [] kind = "alpha" -> [fr EXCEPT !.fmt.alpha = TRUE]
                      [] kind = "prec" -> [fr EXCEPT !.fmt.prec = TRUE]
                      [] kind = "pos" -> [fr EXCEPT !.fmt.pos = TRUE]
                      \* what an operand does to the stream it is printed on ends with the statement
                      [] kind = "comma" -> [fr EXCEPT !.fmt.comma = TRUE]
                      [] kind = "lose" -> [fr EXCEPT !.fmt.lost = TRUE]
                      [] kind = "mask" -> [fr EXCEPT !.fmt.mask = TRUE])
  /\ UNCHANGED <<general, category, due>>
\* an operand is turned into text
Streamed(t) == Depth(t) > 0 /\ Top(t).on /\ UNCHANGED lgvars
MessageOf(t, fr) == <<fr.lv, IF fr.cat = "" THEN category[t] ELSE fr.cat, fr.line, fr.text>>
\* the statement is complete: its message is under way
Tell(t) == /\ Depth(t) > 0 /\ Top(t).on /\ ~Top(t).told
           /\ Put(t, [Top(t) EXCEPT !.told = TRUE]) /\ due' = [due EXCEPT ![t] = Append(@, MessageOf(t, Top(t)))]
           /\ UNCHANGED <<general, category>>
Pop(t) == stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Close(t) == /\ Depth(t) > 0 /\ (Top(t).block /\ Top(t).on => Top(t).body) /\ Pop(t)
            /\ due' = IF Top(t).on /\ ~Top(t).told THEN [due EXCEPT ![t] = Append(@, MessageOf(t, Top(t)))] ELSE due
            /\ UNCHANGED <<general, category>>
\* it is left before its end: what it had streamed, or nothing, is logged
Abandon(t) == /\ Depth(t) > 0 /\ Pop(t)
              /\ \/ UNCHANGED due
                 \/ Top(t).on /\ ~Top(t).told /\ due' = [due EXCEPT ![t] = Append(@, MessageOf(t, Top(t)))]
              /\ UNCHANGED <<general, category>>
SetCategory(t, c) == category' = (IF MinLevel >= 0 THEN [category EXCEPT ![t] = c] ELSE category) /\ UNCHANGED <<general, stack, due>>
SetGeneral(lv) == general' = lv /\ UNCHANGED <<category, stack, due>>
Deliver(t, m) == due[t] # <<>> /\ Head(due[t]) = m /\ due' = [due EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<general, category, stack>>
====
