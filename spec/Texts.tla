---- MODULE Texts ----
(* Characters of strings, and numbers written in decimal. *)
EXTENDS Integers, Sequences, TLC
At(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
DigitVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
Digits10 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in DOMAIN DigitVal
IsSpace(c) == c \in {" ", "\t", "\n", "\r", "\f"}
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN s ELSE LET h == Rep(s, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN s ELSE "")
RECURSIVE TrimLeft(_, _)     \* without the c's it begins with
TrimLeft(s, c) == IF s # "" /\ At(s, 1) = c THEN TrimLeft(From(s, 2), c) ELSE s
RECURSIVE TrimRight(_, _)
TrimRight(s, c) == IF s # "" /\ At(s, Len(s)) = c THEN TrimRight(SubSeq(s, 1, Len(s) - 1), c) ELSE s
RECURSIVE SkipSpace(_)
SkipSpace(s) == IF s # "" /\ IsSpace(At(s, 1)) THEN SkipSpace(From(s, 2)) ELSE s
RECURSIVE Span(_)            \* the digits it begins with
Span(s) == IF s # "" /\ IsDigit(At(s, 1)) THEN At(s, 1) \o Span(From(s, 2)) ELSE ""
RECURSIVE Word(_)            \* what it begins with up to white space
Word(s) == IF s # "" /\ ~IsSpace(At(s, 1)) THEN At(s, 1) \o Word(From(s, 2)) ELSE ""
FirstToken(s) == Word(SkipSpace(s))

\* ---- integers: a sign and digits
Plainly(neg, ds) == LET t == TrimLeft(ds, "0") IN IF t = "" THEN "0" ELSE IF neg THEN "-" \o t ELSE t
LeadingInt(s) ==
  LET t == SkipSpace(s)
      signed == t # "" /\ At(t, 1) \in {"+", "-"}
  IN Plainly(signed /\ At(t, 1) = "-", Span(IF signed THEN From(t, 2) ELSE t))

\* ---- numbers [neg, d, e]: the digits d times 10^e; d without zeros at either end, "" for zero
Num(neg, d, e) == LET a == TrimRight(d, "0") b == TrimLeft(a, "0") IN [neg |-> neg, d |-> b, e |-> e + Len(d) - Len(a)]
\* from what C calls a floating point literal, without exponent: "-12.5"
OfText(s) ==
  LET neg == At(s, 1) = "-"
      t == IF neg THEN From(s, 2) ELSE s
      int == Span(t)
      frac == IF Len(int) < Len(t) THEN From(t, Len(int) + 2) ELSE ""
  IN Num(neg, int \o frac, -Len(frac))
IsZero(x) == x.d = ""
Truncated(x) ==
  IF x.e >= 0 THEN Plainly(x.neg, x.d \o Rep("0", x.e))
  ELSE Plainly(x.neg, SubSeq(x.d, 1, Len(x.d) + x.e))
RECURSIVE Plus1(_)           \* the next number, in as many digits or one more
Plus1(d) == IF d = "" THEN "1"
            ELSE LET c == At(d, Len(d)) h == SubSeq(d, 1, Len(d) - 1) IN
                 IF c = "9" THEN Plus1(h) \o "0" ELSE h \o Digits10[DigitVal[c] + 2]
\* rounded to six digits (what is exactly in the middle is not asked for)
Rounded(x) ==
  IF Len(x.d) <= 6 THEN x
  ELSE LET h == SubSeq(x.d, 1, 6) up == DigitVal[At(x.d, 7)] >= 5
       IN Num(x.neg, IF up THEN Plus1(h) ELSE h, x.e + Len(x.d) - 6)
TwoDigits(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
\* as a stream prints it by default
Shown(x) ==
  IF IsZero(x) THEN "0"
  ELSE LET r == Rounded(x)
           n == Len(r.d)
           exp == n - 1 + r.e
           abs == IF exp < -4 \/ exp >= 6
                  THEN At(r.d, 1) \o (IF n > 1 THEN "." \o From(r.d, 2) ELSE "")
                       \o (IF exp < 0 THEN "e-" \o TwoDigits(-exp) ELSE "e+" \o TwoDigits(exp))
                  ELSE IF r.e >= 0 THEN r.d \o Rep("0", r.e)
                  ELSE IF exp >= 0 THEN SubSeq(r.d, 1, exp + 1) \o "." \o From(r.d, exp + 2)
                  ELSE "0." \o Rep("0", -exp - 1) \o r.d
       IN (IF r.neg THEN "-" ELSE "") \o abs
====
