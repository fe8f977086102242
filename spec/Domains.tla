------------------------------ MODULE Domains -------------------------------
(***************************************************************************)
(* Values of every kind of field, valid and not, the given default first.  *)
(***************************************************************************)
EXTENDS Vectors

Bad == <<"", "x", "1.5", " 1", "1 ", "+1", "-0", "--1", "00">>
I32(d) == <<d>> \o Bad \o <<"0", "-1", "2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999999999999">>
U32(d) == <<d>> \o Bad \o <<"0", "-1", "2147483648", "4294967295", "4294967296">>
Usize(d) == <<d>> \o Bad \o <<"0", "-1", "4294967296", "18446744073709551615", "18446744073709551616">>
U8D(d) == <<d>> \o Bad \o <<"0", "255", "256", "-1", "100", "101">>
DecD(d) == <<d>> \o <<"", "x", " 1", "1 ", "+1", "-0", "0", "-1", "1.5", "-2.50", "0.00", ".5", "5.", ".", "-", "1e3", "1_000", "_1",
             "0.0000000001", "79228162514264337593543950335", "-79228162514264337593543950335",
             "79228162514264337593543950336", "79228162514264337593543950311", "-24", "24", "-24.0", "NaN", "1.5.2", "2147483648">>
BoolD(d) == <<d>> \o <<"0", "1", "2", "-1", "", "x", "+1", "01", " 1", "true">>
Txt(d) == <<d>> \o <<"", "x y", "a:b", "a,b", "[a]", "//c", "é", "\"q\"", "a  b", "0", "$v", "a\tb">>
Path(d) == <<d>> \o <<"", "a b.png", "\"a b.png\"", "\"a.png\"", "\"a b", "a b\"", "\"", "a\\b c.png", "日 本.png", "..", "//x", " ">>

(* the values of a key *)
KindDom(kind) ==
  CASE kind \in {"str", "hash", "tags"} -> Txt("abc")
    [] kind \in {"int", "curtime"} -> I32("7")
    [] kind \in {"dec", "olddec"} -> DecD("0.5")
    [] kind = "bool" -> BoolD("1")
    [] kind \in {"list", "oldlist"} -> <<"1,2,3", "", "1", "1,,2", ",", "1,", "x", "1,x", "-5,2147483647", "2147483648", "1 ,2", "1, 2">>
    [] kind = "countdown" -> <<"1", "0", "2", "3", "4", "-1", "", "x", "01">>
    [] kind = "sampleset" -> <<"Soft", "Normal", "Drum", "None", "All", "soft", "", "0">>
    [] kind = "mode" -> <<"0", "1", "2", "3", "4", "-1", "", "x", "03">>
    [] kind = "overlay" -> <<"Below", "NoChange", "Above", "below", "", "1">>
=============================================================================
