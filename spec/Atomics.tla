---- MODULE Atomics ----
(* One shared 32-bit counter: what each operation returns and leaves.  Arithmetic wraps.       *)
EXTENDS Integers, Bitwise
MaxInt == 2147483647
MinInt == -2147483647 - 1
Add(a, b) == IF a > 0 /\ b > 0 /\ a > MaxInt - b THEN (a - MaxInt - 1) + (b - MaxInt - 1)
             ELSE IF a < 0 /\ b < 0 /\ a < MinInt - b THEN (a + MaxInt + 1) + (b + MaxInt + 1)
             ELSE a + b
\* operation -> <<result, value left>>
Effect(op, a, b, v) ==
  CASE op = "inc"      -> <<Add(v, 1), Add(v, 1)>>
    [] op = "dec"      -> <<Add(v, -1), Add(v, -1)>>
    [] op = "add"      -> <<Add(v, a), Add(v, a)>>
    [] op = "fetch"    -> <<v, v>>
    [] op = "set"      -> <<0, a>>
    [] op = "exchange" -> <<v, a>>
    [] op = "cas"      -> IF v = a THEN <<1, b>> ELSE <<0, v>>
    [] op = "xor"      -> <<v, v ^^ a>>
    [] op = "and"      -> <<v, v & a>>
    [] op = "or"       -> <<v, v | a>>
====
