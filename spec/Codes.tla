-------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* Enumerated values.  Every type is a table of names and codes, a rule    *)
(* for what is outside of the table and a rule for the versions that have  *)
(* the type or one of its members.  A state is one reading: a type, a way  *)
(* of reading (from text, from a number representation, from a number, the *)
(* default of a version), a code and a version; its invariants say that    *)
(* the table is one to one and that what is written is read back.          *)
(***************************************************************************)
EXTENDS Vectors

CONSTANT CodeVs          \* versions read at
VARIABLES ty, via, t, ver
vars == <<ty, via, t, ver>>

Numbered(names) == [i \in 1..Len(names) |-> <<names[i], ToString(i - 1)>>]
Same(names) == [i \in 1..Len(names) |-> <<names[i], names[i]>>]
Origins == <<"TopLeft", "Centre", "CentreLeft", "TopRight", "BottomCentre", "TopCentre", "Custom", "CentreRight", "BottomLeft", "BottomRight">>
Layers == <<"Background", "Fail", "Pass", "Foreground", "Overlay">>
Easings == <<"Linear", "EasingOut", "EasingIn", "QuadIn", "QuadOut", "QuadInOut", "CubicIn", "CubicOut", "CubicInOut", "QuartIn", "QuartOut", "QuartInOut",
             "QuintIn", "QuintOut", "QuintInOut", "SineIn", "SineOut", "SineInOut", "ExpoIn", "ExpoOut", "ExpoInOut", "CircIn", "CircOut", "CircInOut",
             "ElasticIn", "ElasticOut", "ElasticHalfOut", "ElasticQuarterOut", "ElasticInOut", "BackIn", "BackOut", "BackInOut", "BounceIn", "BounceOut", "BounceInOut">>

\* int: how a code is read as a number ("" when codes are names); rest: what an unlisted number is
T(rows, int, rest, unknown, notint, vias, default) ==
  [rows |-> rows, int |-> int, rest |-> rest, unknown |-> unknown, notint |-> notint, vias |-> vias, default |-> default]
Table ==
  ("countdown" :> T(Numbered(<<"NoCountdown", "Normal", "Half", "Double">>), "usize", "err", "Unknown `CountdownSpeed` variant",
                    "There was a problem parsing the `str` as an `Integer`", {"str", "repr", "default"}, "Normal")
   @@ "sampleset" :> T(Same(<<"Normal", "Soft", "Drum", "None">>), "", "err", "Unknown `SampleSet` variant", "", {"str", "default"}, "Normal")
   @@ "mode" :> T(Numbered(<<"Osu", "Taiko", "Catch", "Mania">>), "usize", "err", "Unknown `GameMode` variant", "", {"str", "default"}, "Osu")
   @@ "overlay" :> T(Same(<<"NoChange", "Below", "Above">>), "", "err", "Unknown `OverlayPosition` variant", "", {"str", "default"}, "NoChange")
   @@ "oldorigin" :> T(Numbered(Origins), "usize", "err", "Invalid repr value", "", {"str", "repr"}, "")
   @@ "oldlayer" :> T(Numbered(Append(Layers, "Video")), "usize", "err", "Invalid repr value", "", {"str", "repr"}, "")
   @@ "samplelayer" :> T(Numbered(SubSeq(Layers, 1, 4)), "usize", "err", "Invalid repr value", "", {"repr"}, "")
   @@ "layer" :> T(Same(Layers), "", "err", "Unknown `Layer` variant", "", {"str"}, "")
   @@ "origin" :> T(Numbered(Origins), "i32", "keep", "", "", {"str"}, "")
   @@ "origintype" :> T(Numbered(Origins), "i32", "err", "Unknown `Origin` variant", "", {"int"}, "")
   @@ "easing" :> T(Numbered(Easings), "i32", "keep", "", "", {"int"}, "")
   @@ "looptype" :> T(Same(<<"LoopForever", "LoopOnce">>), "", "err", "Unknown `LoopType` variant", "", {"str", "default"}, "LoopForever")
   @@ "parameter" :> T(<<<<"ImageFlipHorizontal", "H">>, <<"ImageFlipVertical", "V">>, <<"UseAdditiveColourBlending", "A">>>>, "", "err",
                       "Unknown `Parameter` variant", "", {"str"}, "")
   @@ "triggerset" :> T(Same(<<"All", "Normal", "Soft", "Drum">>), "", "err", "Unknown `SampleSet` variant", "", {"str"}, "")
   @@ "addition" :> T(Same(<<"Whistle", "Finish", "Clap">>), "", "err", "Unknown `Addition` variant", "", {"str"}, "")
   @@ "curve" :> T(<<<<"Bezier", "B">>, <<"Centripetal", "C">>, <<"Linear", "L">>, <<"PerfectCircle", "P">>>>, "", "err",
                   "Unknown `CurveType` variant", "", {"str"}, "")
   @@ "hitset" :> T(Numbered(<<"NoCustomSampleSet", "NormalSet", "SoftSet", "DrumSet">>), "usize", "keep", "",
                    "There was a problem parsing the `str` into an integer first", {"str", "default"}, "NoCustomSampleSet")
   @@ "hitindex" :> T(Numbered(<<"TimingPointSampleIndex">>), "usize", "keep", "", "", {"str", "int", "default"}, "TimingPointSampleIndex")
   @@ "timingset" :> T(Numbered(<<"BeatmapDefault", "Normal", "Soft", "Drum">>), "i32", "keep", "", "", {"str", "int"}, "")
   @@ "timingindex" :> T(Numbered(<<"OsuDefaultHitsounds">>), "u32", "keep", "", "", {"str", "int", "default"}, "OsuDefaultHitsounds"))
Types == DOMAIN Table

\* versions that have the type at all
HasType(y, v) == CASE y = "countdown" -> v > 4 [] y = "sampleset" -> v > 3 [] y = "overlay" -> v > 13 [] OTHER -> TRUE
\* the first version that has a member of the type
First(y, n) == IF y = "mode" THEN CASE n = "Taiko" -> 5 [] n = "Catch" -> 7 [] n = "Mania" -> 10 [] OTHER -> 3 ELSE 3

\* a value: its name, or the number that is kept
KeptName(y, x) == IF y \in {"hitindex", "timingindex"} THEN "Index(" \o x \o ")" ELSE "Other(" \o x \o ")"
Some(n, c) == [st |-> "ok", name |-> n, code |-> c, msg |-> ""]
None == [st |-> "none", name |-> "", code |-> "", msg |-> ""]
Bad(m) == [st |-> "err", name |-> "", code |-> "", msg |-> m]
ByCode(y, c) == {i \in 1..Len(Table[y].rows) : Table[y].rows[i][2] = c}
ByName(y, n) == {i \in 1..Len(Table[y].rows) : Table[y].rows[i][1] = n}
Listed(y, i, v) == LET r == Table[y].rows[i] IN IF First(y, r[1]) <= v THEN Some(r[1], r[2]) ELSE None
ReadCode(y, c, v) ==
  LET i == ByCode(y, c)
  IN IF i # {} THEN Listed(y, CHOOSE k \in i : TRUE, v)
     ELSE IF Table[y].rest = "keep" THEN Some(KeptName(y, c), c) ELSE Bad(Table[y].unknown)
\* a text: for numbered types the number in it
ReadText(y, x, v) ==
  IF ~HasType(y, v) THEN None
  ELSE IF y = "origin" /\ ByName(y, x) # {} THEN Some("long " \o x, x)
  ELSE IF Table[y].int = "" THEN LET r == ReadCode(y, x, v) IN r
  ELSE LET n == ParseInt(x, Table[y].int)
       IN IF ~n.ok THEN Bad(IF Table[y].notint # "" THEN Table[y].notint ELSE n.msg)
          ELSE LET r == ReadCode(y, n.txt, v)
               IN IF y = "origin" THEN [r EXCEPT !.name = "short " \o @] ELSE r
Read(y, way, x, v) ==
  CASE way = "default" -> IF HasType(y, v) THEN LET i == CHOOSE i \in 1..Len(Table[y].rows) : Table[y].rows[i][1] = Table[y].default IN Listed(y, i, v)
                          ELSE None
    [] way = "str" -> ReadText(y, x, v)
    [] OTHER -> IF ~HasType(y, v) THEN None ELSE ReadCode(y, x, v)
\* what a value is written as for version w ("-": not in it)
CodeText(y, r, w) == IF r.st # "ok" \/ y \in {"samplelayer", "origintype"} \/ ~HasType(y, w) \/ First(y, r.name) > w THEN "-" ELSE r.code
\* the number a value is converted to, for the types that have such a conversion
Numeric == {"oldorigin", "oldlayer", "origintype", "easing", "hitset", "hitindex", "timingset", "timingindex"}
Number(y, r) == IF r.st = "ok" /\ y \in Numeric /\ ~(y = "timingindex" /\ ~NatLeq(r.code, IntMax["i32"])) THEN r.code ELSE "-"

(* ------------------------------ the machine ----------------------------- *)
Names == UNION {{Table[y].rows[i][1] : i \in 1..Len(Table[y].rows)} : y \in Types}
Letters == {"B", "C", "L", "P", "H", "V", "A", "M", "b", "h"}
Odd == {"", " ", "x", "007", "+1", " 1", "1 ", "1.0", "-", "-0", "normal", "NORMAL", "Normal ", "Center", "TopCenter", "Nonee", "Video"}
Nums == {ToString(i) : i \in 0..40} \cup {"255", "256", "2147483647"}
Bigs == {"2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616"}
Negs == {"-1", "-5", "-2147483648", "-2147483649"}
InType(y, x) == LET n == ParseInt(x, Table[y].int) IN n.ok /\ n.txt = x
Domain(y, way) ==
  CASE way = "default" -> {""}
    [] way = "str" -> Names \cup Letters \cup Odd \cup Nums \cup Bigs \cup Negs
    [] OTHER -> {x \in Nums \cup Bigs \cup Negs : InType(y, x)}

Init == /\ ty \in Types
        /\ via \in Table[ty].vias
        /\ t \in Domain(ty, via)
        /\ ver \in CodeVs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

OneToOne == \A i, j \in 1..Len(Table[ty].rows) : i # j =>
              Table[ty].rows[i][1] # Table[ty].rows[j][1] /\ Table[ty].rows[i][2] # Table[ty].rows[j][2]
\* reading what was written gives the value again; a default is a member of the version
Back(r) == \A w \in 3..14 : CodeText(ty, r, w) # "-" /\ "str" \in Table[ty].vias => Read(ty, "str", CodeText(ty, r, w), w) = r
\* a version has what it reads
Present(r) == r.st = "ok" /\ ty \notin {"samplelayer", "origintype"} => CodeText(ty, r, ver) # "-"
Behaviour == LET r == Read(ty, via, t, ver)
             IN /\ OneToOne /\ Back(r) /\ Present(r)
                /\ Emit([k |-> "code", ty |-> ty, via |-> via, t |-> t, v |-> ver, st |-> r.st, msg |-> r.msg, name |-> r.name,
                         w |-> [w \in 1..12 |-> CodeText(ty, r, w + 2)], num |-> Number(ty, r)])
=============================================================================
