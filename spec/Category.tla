---- MODULE Category ----
(* Category expressions: what the regular expressions of the listeners (ECMAScript, matching the whole name) are and what they match.
   An expression is a tree, a name a sequence of characters (strings of length one).
     <<"none">>                  nothing at all
     <<"chr", c>>  <<"any">>     a character, any but the end of a line
     <<"cls", neg, cs>>          one (not) of the characters of the sequence cs; <<"word">> a letter, digit or underscore, <<"digit">> a digit
     <<"seq", r, s>> <<"or", r, s>> <<"grp", r>>
     <<"star", r>> <<"plus", r>> <<"opt", r>> <<"rep", r, m, n>> (n = -1: m or more) *)
EXTENDS Integers, Sequences, TLC
Special == {".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "|", "^", "$", "\\", "/"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
WordChars == Digits \cup Lower \cup Upper \cup {"_"}
Range1(s) == {s[j] : j \in DOMAIN s}

RECURSIVE Ends(_, _, _), Loop(_, _, _), Times(_, _, _, _)
\* where a match of r that begins after the first i characters of s may end
Ends(r, s, i) ==
  LET one(yes) == IF i < Len(s) /\ yes THEN {i + 1} ELSE {}
      c == IF i < Len(s) THEN s[i + 1] ELSE ""
  IN CASE r[1] = "none" -> {i}
       [] r[1] = "chr" -> one(c = r[2])
       [] r[1] = "any" -> one(c \notin {"\n", "\r"})
       [] r[1] = "word" -> one(c \in WordChars)
       [] r[1] = "digit" -> one(c \in Digits)
       [] r[1] = "cls" -> one((c \in Range1(r[3])) # r[2])
       [] r[1] = "grp" -> Ends(r[2], s, i)
       [] r[1] = "seq" -> UNION {Ends(r[3], s, j) : j \in Ends(r[2], s, i)}
       [] r[1] = "or" -> Ends(r[2], s, i) \cup Ends(r[3], s, i)
       [] r[1] = "opt" -> {i} \cup Ends(r[2], s, i)
       [] r[1] = "star" -> Loop(r[2], s, {i})
       [] r[1] = "plus" -> Loop(r[2], s, Ends(r[2], s, i))
       [] r[1] = "rep" -> LET low == Times(r[2], s, r[3], {i}) IN IF r[4] = -1 THEN Loop(r[2], s, low) ELSE UNION {Times(r[2], s, k, low) : k \in 0..(r[4] - r[3])}
Loop(r, s, at) == LET more == at \cup UNION {Ends(r, s, j) : j \in at} IN IF more = at THEN at ELSE Loop(r, s, more)
Times(r, s, n, at) == IF n = 0 THEN at ELSE Times(r, s, n - 1, UNION {Ends(r, s, j) : j \in at})
Matches(r, s) == Len(s) \in Ends(r, s, 0)

\* ---- as it is written
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Join(Tail(cs))
Quoted(c) == IF c \in Special THEN "\\" \o c ELSE c
InClass(c) == IF c \in {"\\", "]", "[", "^", "-"} THEN "\\" \o c ELSE c
RECURSIVE Classed(_)
Classed(cs) == IF cs = <<>> THEN "" ELSE InClass(Head(cs)) \o Classed(Tail(cs))
Level(r) == CASE r[1] = "or" -> 0 [] r[1] \in {"seq", "none"} -> 1 [] r[1] \in {"star", "plus", "opt", "rep"} -> 2 [] OTHER -> 3
RECURSIVE Text(_), In(_, _)
In(r, n) == IF Level(r) < n THEN "(" \o Text(r) \o ")" ELSE Text(r)
Text(r) ==
  CASE r[1] = "none" -> "" [] r[1] = "chr" -> Quoted(r[2]) [] r[1] = "any" -> "." [] r[1] = "word" -> "\\w" [] r[1] = "digit" -> "\\d"
    [] r[1] = "cls" -> "[" \o (IF r[2] THEN "^" ELSE "") \o Classed(r[3]) \o "]"
    [] r[1] = "grp" -> "(?:" \o Text(r[2]) \o ")"
    [] r[1] = "seq" -> In(r[2], 1) \o In(r[3], 1)
    [] r[1] = "or" -> In(r[2], 0) \o "|" \o In(r[3], 0)
    [] r[1] = "opt" -> In(r[2], 3) \o "?" [] r[1] = "star" -> In(r[2], 3) \o "*" [] r[1] = "plus" -> In(r[2], 3) \o "+"
    [] r[1] = "rep" -> In(r[2], 3) \o "{" \o ToString(r[3]) \o (IF r[4] = r[3] THEN "" ELSE IF r[4] = -1 THEN "," ELSE "," \o ToString(r[4])) \o "}"

\* a message without a category, and one for a listener without an expression, always passes
Passes(r, s) == s = <<>> \/ Text(r) = "" \/ Matches(r, s)
====
