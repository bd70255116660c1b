---- MODULE ItemConvGen ----
(* Every value in reach, and what an item built from it must answer. *)
EXTENDS ItemRules, Json
CONSTANTS Alphabet, Longest,   \* the strings that are tried
          Random               \* so many numbers drawn at random
VARIABLES v
D == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Draw(_, _)
Draw(n, z) == IF n = 0 THEN "" ELSE RandomElement(D) \o Draw(n - 1, z)
NoTie(x) == ~(Len(x.d) = 7 /\ At(x.d, 7) = "5")
\* at most 15 digits in all, so that a double tells them apart
RandomReal(i) ==
  LET n == RandomElement(0..15) m == RandomElement(0..(15 - n)) z == RandomElement({0, 0, 1, 3, 6})
  IN RandomElement({"", "-"}) \o (IF n = 0 THEN "0" ELSE Draw(n, i)) \o (IF m = 0 THEN "" ELSE "." \o (IF n = 0 THEN Rep("0", z) ELSE "") \o Draw(m, i))
RandomInt(i) == LET n == RandomElement(1..18) IN Plainly(RandomElement({TRUE, FALSE}), Draw(n, i))
RandomString(i) == RandomElement({"", " ", "\t\n", "x"}) \o RandomElement({"", "-", "+", "--"}) \o Draw(RandomElement(0..18), i) \o RandomElement({"", "a", ".5", " 7", "e3", "-2", "x1"})
Ok(x) == IsWild(x) \/ (x[1] \in {"float", "big"} => (NoTie(OfText(x[2])) /\ (x[1] = "float" => ~(IsZero(OfText(x[2])) /\ OfText(x[2]).neg))))
\* (two variables drawn one after the other so that TLC does not take them for constants)
VARIABLE left
vars == <<v, left>>
All == {NilValue} \cup WildValues \cup IntValues \cup BoolValues \cup RealValues \cup OddValues \cup {<<t, s>> : t \in StrTypes, s \in Strings(Alphabet, Longest)}
Init == v \in All /\ left = 0
Drawn(i) == {<<"float", RandomReal(i)>>, <<"big", RandomReal(i)>>, <<"int64", RandomInt(i)>>, <<"str", RandomString(i)>>, <<"cstr", RandomString(i)>>}
Next == /\ ((v = NilValue /\ left = 0) \/ left > 0)
        /\ left < Random /\ left' = left + 1
        /\ v' \in {x \in Drawn(left) : Ok(x)}
Spec == Init /\ [][Next]_vars
View == IF left = 0 THEN <<v, 0>> ELSE <<v[1], left>>
Emit == Ok(v) => PrintT(ToJson(<<"T", << <<"value", v, Facts(v)>> >>, <<>>>>))
Laws == Ok(v) =>
  /\ v[1] # "nil" => Kind(v) # "Nil"
  /\ Kind(v) \in {"Int", "Float", "BigNum"} /\ ~AsBool(v) => AsInt(v) = "0"
  /\ Kind(v) = "Int" => AsString(v) = AsInt(v)
====
