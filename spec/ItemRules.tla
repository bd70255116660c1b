---- MODULE ItemRules ----
(* The values of items: <<type it is built from, text>>, and what each kind of value is in other terms. *)
EXTENDS Texts, FiniteSets
IntTypes == {"char", "byte", "int32", "uint32", "int64", "uint64"}
StrTypes == {"cstr", "str"}
Kind(v) == CASE v[1] = "nil" -> "Nil" [] v[1] = "bool" -> "Bool" [] v[1] \in IntTypes -> "Int" [] v[1] = "float" -> "Float"
             [] v[1] \in StrTypes -> "String" [] v[1] = "big" -> "BigNum"
\* numbers beyond all integers: what they are as one is left open
Wild == [t \in {"1e300", "-1e300", "1e100", "inf", "-inf", "nan", "1e19", "-1e19", "1e-300"} |->
  CASE t = "1e300" -> "1e+300" [] t = "-1e300" -> "-1e+300" [] t = "1e100" -> "1e+100" [] t = "1e19" -> "1e+19" [] t = "-1e19" -> "-1e+19" [] OTHER -> t]
IsWild(v) == v[1] \in {"float", "big"} /\ v[2] \in DOMAIN Wild
WildValues == {"float", "big"} \X DOMAIN Wild
AsString(v) == CASE IsWild(v) -> Wild[v[2]] [] v[1] = "nil" -> "nil" [] v[1] \in {"bool"} \cup IntTypes \cup StrTypes -> v[2]
                 [] v[1] \in {"float", "big"} -> Shown(OfText(v[2]))
AsBool(v) == CASE IsWild(v) -> TRUE [] v[1] = "nil" -> FALSE [] v[1] = "bool" -> v[2] = "true" [] v[1] \in IntTypes -> v[2] # "0"
               [] v[1] \in {"float", "big"} -> ~IsZero(OfText(v[2])) [] v[1] \in StrTypes -> v[2] # ""
AsInt(v) == CASE IsWild(v) -> (IF v[2] = "1e-300" THEN "0" ELSE "?") [] v[1] = "nil" -> "0" [] v[1] = "bool" -> IF v[2] = "true" THEN "1" ELSE "0" [] v[1] \in IntTypes -> v[2]
              [] v[1] \in {"float", "big"} -> Truncated(OfText(v[2])) [] v[1] \in StrTypes -> LET n == LeadingInt(v[2]) IN IF Len(n) > 18 THEN "?" ELSE n   \* (left open: it may not fit)
\* everything that can be asked
Facts(v) == <<Kind(v), AsString(v), AsInt(v), IF AsBool(v) THEN 1 ELSE 0, v[2]>>

NilValue == <<"nil", "">>
\* what an allocated value of each kind is
Fresh == <<NilValue, <<"bool", "false">>, <<"int64", "0">>, <<"float", "0">>, <<"str", "">>, <<"big", "0">>>>

Bounds == [t \in IntTypes |->
  CASE t = "char" -> <<"-128", "-127", "-1", "0", "1", "65", "126", "127">>
    [] t = "byte" -> <<"0", "1", "127", "128", "129", "254", "255">>
    [] t = "int32" -> <<"-2147483648", "-2147483647", "-65536", "-256", "-129", "-1", "0", "1", "255", "256", "32768", "65535", "65536", "2147483646", "2147483647">>
    [] t = "uint32" -> <<"0", "1", "255", "256", "65535", "65536", "2147483647", "2147483648", "2147483649", "4294967294", "4294967295">>
    [] t = "int64" -> <<"-9223372036854775808", "-9223372036854775807", "-4294967297", "-4294967296", "-4294967295", "-2147483649", "-2147483648", "-1", "0", "1",
                        "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740993", "1000000", "123456789012345678", "9223372036854775806", "9223372036854775807">>
    [] t = "uint64" -> <<"0", "1", "2147483648", "4294967295", "4294967296", "1000000", "9007199254740993", "9223372036854775806", "9223372036854775807">>]
Range(s) == {s[i] : i \in DOMAIN s}
IntValues == UNION {{<<t, s>> : s \in Range(Bounds[t])} : t \in IntTypes}
BoolValues == {<<"bool", "true">>, <<"bool", "false">>}
\* numbers of which no bit is lost in a double
Reals == {"0", "1", "-1", "0.5", "-0.5", "0.25", "-0.75", "1.5", "-1.5", "2.75", "-2.75", "0.001", "0.0001", "0.00012345", "-0.0001", "0.00001", "0.0000123", "-0.000099",
          "99999", "100000", "999999", "-999999", "1000000", "999999.75", "-999999.75", "999999.25", "1234567", "-1234567", "123456.25", "99999.96875", "99999.03125", "1000001", "10000000000",
          "2147483647", "2147483648", "-2147483648", "-2147483649", "2147483647.75", "4294967296", "4294967295.5", "9007199254740991", "-9007199254740992",
          "9223372036854774784", "-9223372036854775808", "1000000000000000000", "0.99999", "0.999999", "0.9999999", "-0.9999999", "3.14159265", "2.71828", "100", "1024", "65536.0625", "5", "-7"}
\* big numbers have more
Bigs == {"0.1", "-0.1", "12345678901234567890.5", "9223372036854775807", "-9223372036854775808", "9223372036854775806.99999", "0.00000000000000000000000000000001",
         "123456789012345678.123456789", "-123456789012345678.987654321", "9007199254740993", "4611686018427387905", "0.3333333333333333333333333333", "999999.6", "99999.95", "1.0000001"}
RealValues == {<<"float", r>> : r \in Reals} \cup {<<"big", r>> : r \in (Reals \cup Bigs) \ {"12345678901234567890.5"}}

\* characters 0 and 255 ("@" and "~"), and numbers longer than any integer
OddStrings == {"@", "@@", "a@b", "12@34", "@7", " @7", "-@1", "exactly16chars.@", "more than sixteen @ characters @", "~", "1~", "~1", "\t\n\r\f 8", "00000000000000000000012", "-000000000000000000000000000000034",
               "+0000000000000000000000000000009999999999999999999", "99999999999999999999", "-99999999999999999999999999999999999999", "18446744073709551616x", " 9223372036854775808"}
OddValues == {<<"str", s>> : s \in OddStrings} \cup {<<"cstr", s>> : s \in {x \in OddStrings : \A i \in 1..Len(x) : At(x, i) # "@"}}

RECURSIVE Strings(_, _)
Strings(a, n) == IF n = 0 THEN {""} ELSE LET m == Strings(a, n - 1) IN m \cup {c \o s : c \in a, s \in m}
====
