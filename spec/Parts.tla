------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* Values below the level of a line, read by their own parsers: colour     *)
(* components, edge sets, curve points, hit samples, trigger conditions,   *)
(* variables, the value of every key, and the defaults of every version.   *)
(* A state is one reading of one text (or one default) at one version.     *)
(***************************************************************************)
EXTENDS Domains

CONSTANTS PartVs,        \* versions read at
          PartGroups         \* which parts: names, "fields", "defaults"
VARIABLES part, t, ver
vars == <<part, t, ver>>

R(x, w) == [st |-> "ok", msg |-> "", obs |-> x, w |-> w]
Fails(m) == [st |-> "err", msg |-> m, obs |-> "", w |-> [v \in 1..12 |-> "-"]]
Nothing == [st |-> "none", msg |-> "", obs |-> "", w |-> [v \in 1..12 |-> "-"]]
Always(x) == [v \in 1..12 |-> x]

ReadRgb(x) == LET c == ColourRgb(x, 1, "", "")
              IN IF c.ok THEN R(Join(<<c.r, c.g, c.b>>, "|"), Always(Join(<<c.r, c.g, c.b>>, ","))) ELSE Fails(c.msg)
FirstBad == "Failed to parse the first item"
NoColon == "The colon separator is missing"
SecondBad == "Failed to parse the second item"
ReadEdgeSet(x) ==
  LET c == SkipTo(x, 1, {":"})
      a == ParseInt(Upto(x, c - 1), "usize")
      b == ParseInt(From(x, c + 1), "usize")
  IN IF ~a.ok THEN Fails(FirstBad) ELSE IF c > Len(x) THEN Fails(NoColon) ELSE IF ~b.ok THEN Fails(SecondBad)
     ELSE R(a.txt \o ":" \o b.txt, Always(a.txt \o ":" \o b.txt))
ReadPoint(x) ==
  LET c == SkipTo(x, 1, {":"})
      p == DecText(Dec(Upto(x, c - 1))) \o ":" \o DecText(Dec(From(x, c + 1)))
  IN IF c > Len(x) THEN Fails(NoColon) ELSE R(p, Always(p))
\* which part of a hit sample is wrong
SampleFault(x) ==
  LET q == Split(x, ":")
      Bads(i) == i <= Len(q) /\ ~(i > 1 /\ i = Len(q) /\ AllBlank(q[i]))
                 /\ IF i = 4 THEN ~(ParseInt(q[i], "u8").ok /\ NatLeq(ParseInt(q[i], "u8").txt, "100")) ELSE ~ParseInt(q[i], "usize").ok
  IN IF Bads(1) \/ Bads(2) THEN "Invalid `sample_set` value" ELSE IF Bads(3) THEN "Invalid `index` value" ELSE "Invalid `volume` value"
ReadSample(x) ==
  LET r == ParseSample(x)
  IN IF r.ok THEN R(SampleObs(r.v), [i \in 1..12 |-> IF SampleExists(i + 2) THEN SampleText(r.v, i + 2) ELSE "-"])
     ELSE Fails(SampleFault(x))
ReadTrigger(x) ==
  LET r == ParseTrigger(x)
      s == Trim(x)
  IN IF r.ok THEN R(r.obs, Always(r.txt))
     ELSE Fails(IF ~StartsWith(s, "HitSound") THEN "Unknown trigger type"
                ELSE IF Len(TrigParts(From(s, 9), 1, "", <<>>)) > 4 THEN "There are too many `HitSound` fields"
                ELSE "Unknown `HitSound` type")
ReadVariable(x) ==
  LET e == SkipTo(x, 2, {"=", "\n"})
  IN IF ~StartsWith(x, "$") THEN Fails("Missing the header `$`")
     ELSE IF ~StartsAt(x, e, "=") THEN Fails("Missing `=` for assignment")
     ELSE R(Sub(x, 2, e - 1) \o "|" \o From(x, e + 1), Always(x))

\* the value of a key, read without the rest of its line
OwnKinds == {"str", "hash", "tags", "int", "curtime", "dec", "olddec", "bool", "list", "oldlist"}
FieldParts == UNION {{sec \o "." \o KVFields[sec][i].key : i \in {j \in 1..Len(KVFields[sec]) : KVFields[sec][j].kind \in OwnKinds}} : sec \in KVSections}
KindOf(p) == LET sec == Upto(p, SkipTo(p, 1, {"."}) - 1)
             IN KVFields[sec][FieldIndex(sec, From(p, Len(sec) + 2))].kind
FieldObs(kind, x) == IF kind = "tags" THEN ReplaceAllText(x, " ", "|") ELSE x
FieldR(kind, x) == R(FieldObs(kind, x), [i \in 1..12 |-> IF Written(kind, x, i + 2) THEN x ELSE "-"])
ReadField(p, x, v) ==
  LET kind == KindOf(p)
      f == ParseField(kind, x, v)
  IN IF f.ok THEN FieldR(kind, f.v.t) ELSE Fails(f.msg)

\* defaults: the value a key has when it is left out, for the keys that have one
Default ==
  [q \in {"General.AudioFilename", "General.AudioHash", "General.SkinPreference", "Metadata.Tags"} |-> ""]
  @@ [q \in {"General.AudioLeadIn", "General.LetterboxInBreaks", "General.UseSkinSprites", "General.AlwaysShowPlayfield", "General.EpilepsyWarning",
             "General.CountdownOffset", "General.SpecialStyle", "General.WidescreenStoryboard", "General.SamplesMatchPlaybackRate"} |-> "0"]
  @@ ("General.PreviewTime" :> "-1" @@ "General.StackLeniency" :> "0.7" @@ "General.StoryFireInFront" :> "1")
\* sections and samples have defaults too; `new` is a section without any key
SectionDefaults == {"Events", "TimingPoints", "HitObjects", "Colours", "HitSample", "new.General", "new.Editor", "new.Metadata", "new.Difficulty"}
DefaultOf(p, v) ==
  CASE p \in DOMAIN Default -> IF KindOf(p) = "hash" /\ v > 13 THEN Nothing ELSE FieldR(KindOf(p), Default[p])
    [] p = "Colours" -> IF ColoursExist(v) THEN R("", [i \in 1..12 |-> IF ColoursExist(i + 2) THEN "" ELSE "-"]) ELSE Nothing
    [] p = "HitSample" -> R(SampleObs(DefSample), [i \in 1..12 |-> IF SampleExists(i + 2) THEN SampleText(DefSample, i + 2) ELSE "-"])
    [] OTHER -> R("", Always(""))

(* ------------------------------ the machine ----------------------------- *)
Cross(A, s, B) == {a \o s2 \o b : a \in A, s2 \in s, b \in B}
Bytes == {"1", "255", "256", "", "x", " 7", "7 ", "+7", "\t0"}
Ints == {"0", "1", "4", "", "x", "-1", "007", "18446744073709551615", "18446744073709551616", " 1", "+2", "1:2"}
DecTexts == {"0", "1.50", "-2", "", "x", " 1", "1:2", "1|2"}
Piece == {"All", "Soft", "Drum", "Normal", "Whistle", "Clap", "3", "12", "x", " "}
RECURSIVE Pieces(_, _)
Pieces(P, k) == IF k = 0 THEN {""} ELSE {a \o b : a \in P, b \in Pieces(P, k - 1)}
SampleTexts ==
  LET A == {"1", "0", "", "x", " "} B == {"2", "", "x", " ", "4"} C == {"3", "", "x", " "} D == {"0", "50", "100", "101", "", "x", " ", "-1"} F == {"", "a b.wav", " ", "f:g", "日"}
      c == {":"}
      q2 == Cross(A, c, B) q3 == Cross(q2, c, C) q4 == Cross(q3, c, D)
  IN A \cup q2 \cup q3 \cup q4 \cup Cross(q4, c, F)
Range(q) == {q[i] : i \in 1..Len(q)}
Domain(p) ==
  CASE p = "rgb" -> LET s == {",", " , ", ";", ""} IN Bytes \cup Cross(Bytes, s, Bytes) \cup Cross(Cross(Bytes, s, Bytes), s, Bytes)
    [] p = "edgeset" -> Ints \cup Cross(Ints, {":"}, Ints)
    [] p = "point" -> DecTexts \cup Cross(DecTexts, {":"}, DecTexts)
    [] p = "sample" -> SampleTexts
    [] p = "trigger" -> {h \o x : h \in {"HitSound", " HitSound", "Hit"}, x \in UNION {Pieces(Piece, k) : k \in 0..3}}
                          \cup {"HitSound" \o x : x \in Pieces({"Soft", "All", "Clap", "3", "x"}, 4) \cup Pieces({"Soft", "Clap", "3"}, 5)} \cup {"Passing", "Failing", " Failing ", "passing", "", "Passing1"}
    [] p = "variable" -> {"$" \o a \o b : a \in {"", "a", "a b", "$", "日", " "}, b \in {"", "=", "=1", "=a=b", "= x ", "\n=1", "=1\n2"}} \cup {"", "a=1", " $a=1", "$"}
    [] OTHER -> Range(KindDom(KindOf(p)))
Texts == ({"rgb", "edgeset", "point", "sample", "trigger", "variable"} \cap PartGroups) \cup (IF "fields" \in PartGroups THEN FieldParts ELSE {})
DefaultParts == IF "defaults" \in PartGroups THEN DOMAIN Default \cup SectionDefaults ELSE {}
Start == [d |-> "start", x |-> ""]
Init == ver \in PartVs /\ part \in Texts \cup DefaultParts /\ t = Start
Next == /\ t = Start
        /\ \/ part \in Texts /\ t' \in {[d |-> "no", x |-> x] : x \in Domain(part)}
           \/ part \in DefaultParts /\ t' = [d |-> "yes", x |-> ""]
        /\ UNCHANGED <<part, ver>>
Spec == Init /\ [][Next]_vars

Read(p, x, v) ==
  CASE p = "rgb" -> ReadRgb(x) [] p = "edgeset" -> ReadEdgeSet(x) [] p = "point" -> ReadPoint(x) [] p = "sample" -> ReadSample(x)
    [] p = "trigger" -> ReadTrigger(x) [] p = "variable" -> ReadVariable(x) [] OTHER -> ReadField(p, x, v)
Result == IF t.d = "yes" THEN DefaultOf(part, ver) ELSE Read(part, t.x, ver)
\* what is written is read as the same value and written the same
Stable(r) == r.st = "ok" /\ t.d = "no" =>
               \A i \in 1..12 : r.w[i] # "-" => LET q == Read(part, r.w[i], i + 2)
                                                IN q.st = "ok" /\ q.w[i] = r.w[i] /\ (i = 12 => q.obs = r.obs)
Behaviour == t # Start => LET r == Result IN Stable(r) /\ Emit([k |-> "part", part |-> part, d |-> t.d, t |-> t.x, v |-> ver, st |-> r.st, msg |-> r.msg, obs |-> r.obs, w |-> r.w])
=============================================================================
