------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* Storyboard commands: one command per line, its fields, and the way a    *)
(* command is written back (with the variables of an .osb file, see        *)
(* Variables).  How commands nest is in module SbTree.                     *)
(***************************************************************************)
EXTENDS KeyValue

(* ----------------------------- variables -------------------------------- *)
\* variables: sequence of [name, value]
VarRef(v) == "$" \o v.name
RECURSIVE ExpandFrom(_, _, _, _)
\* line: what is searched for references; s: the text replaced so far
ExpandFrom(line, s, vars, i) ==
  IF i > Len(vars) THEN s
  ELSE ExpandFrom(line, IF Contains(line, VarRef(vars[i]))
                        THEN ReplaceAllText(s, VarRef(vars[i]), vars[i].value) ELSE s, vars, i + 1)
\* a command line as it is read: references after the first comma decide
Expand(line, vars) ==
  IF vars = <<>> THEN line
  ELSE LET c == SkipTo(line, 1, {","})
       IN ExpandFrom(IF c > Len(line) THEN line ELSE From(line, c + 1), line, vars, 1)

\* the fields of a command with values written as references, as long as
\* reading the references gives the same fields again
RECURSIVE ReferFrom(_, _, _, _)
ReferFrom(cmd, s, vars, i) ==
  IF i > Len(vars) THEN s
  ELSE LET v == vars[i]
           t == ReplaceAllText(s, v.value, VarRef(v))
       IN IF v.value # "" /\ Contains(s, v.value) /\ ExpandFrom(t, t, vars, 1) = cmd
          THEN ReferFrom(cmd, t, vars, i + 1) ELSE ReferFrom(cmd, s, vars, i + 1)
Refer(cmd, vars) == ReferFrom(cmd, cmd, vars, 1)

(* ------------------------------ triggers -------------------------------- *)
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V",
          "W","X","Y","Z"}
\* a new part starts at an upper case letter and at the first digit of a number
RECURSIVE TrigParts(_, _, _, _)
TrigParts(s, i, cur, acc) ==
  IF i > Len(s) THEN Append(acc, cur)
  ELSE LET c == At(s, i)
           new == i > 1 /\ (c \in Upper \/ (c \in Digit /\ At(s, i - 1) \notin Digit))
       IN IF new THEN TrigParts(s, i + 1, c, Append(acc, cur)) ELSE TrigParts(s, i + 1, cur \o c, acc)

TrigSets == {"All", "Normal", "Soft", "Drum"}
TrigAdds == {"Whistle", "Finish", "Clap"}
NoTrig == [ok |-> FALSE, txt |-> "", obs |-> ""]
HitTrig == [slots |-> <<"", "", "", "">>, next |-> 1]
SlotFits(k, t) == CASE k \in {1, 2} -> t \in TrigSets
                    [] k = 3 -> t \in TrigAdds
                    [] k = 4 -> ParseInt(t, "usize").ok
                    [] OTHER -> FALSE
\* every part goes to the first free slot (in order) it fits in
RECURSIVE TrigFill(_, _, _, _)
TrigFill(parts, i, slots, k) ==
  IF i > Len(parts) THEN [ok |-> TRUE, slots |-> slots]
  ELSE LET fit == {j \in k..4 : SlotFits(j, parts[i])}
       IN IF fit = {} THEN [ok |-> FALSE, slots |-> slots]
          ELSE LET j == CHOOSE j \in fit : \A m \in fit : j <= m
               IN TrigFill(parts, i + 1,
                           [slots EXCEPT ![j] = IF j = 4 THEN ParseInt(parts[i], "usize").txt ELSE parts[i]],
                           j + 1)
ParseTrigger(s0) ==
  LET s == Trim(s0)
      r == From(s, 9)
      parts == TrigParts(r, 1, "", <<>>)
      f == TrigFill(parts, 1, <<"", "", "", "">>, 1)
      O(q) == Join(MapSeq(q, LAMBDA x : IF x = "" THEN "-" ELSE x), "/")
  IN CASE s \in {"Passing", "Failing"} -> [ok |-> TRUE, txt |-> s, obs |-> s]
       [] s = "HitSound" -> [ok |-> TRUE, txt |-> s, obs |-> "HitSound/" \o O(<<"", "", "", "">>)]
       [] StartsWith(s, "HitSound") /\ s # "HitSound" ->
            IF Len(parts) <= 4 /\ f.ok
            THEN [ok |-> TRUE, txt |-> "HitSound" \o Join(f.slots, ""), obs |-> "HitSound/" \o O(f.slots)]
            ELSE NoTrig
       [] OTHER -> NoTrig

(* ------------------------------- fields --------------------------------- *)
EasingNames == <<"Linear", "EasingOut", "EasingIn", "QuadIn", "QuadOut", "QuadInOut", "CubicIn", "CubicOut",
  "CubicInOut", "QuartIn", "QuartOut", "QuartInOut", "QuintIn", "QuintOut", "QuintInOut", "SineIn", "SineOut",
  "SineInOut", "ExpoIn", "ExpoOut", "ExpoInOut", "CircIn", "CircOut", "CircInOut", "ElasticIn", "ElasticOut",
  "ElasticHalfOut", "ElasticQuarterOut", "ElasticInOut", "BackIn", "BackOut", "BackInOut", "BounceIn",
  "BounceOut", "BounceInOut">>
EasingObs(t) == IF Len(t) <= 2 /\ ~Neg(t) /\ IntVal(t) <= 34 THEN EasingNames[IntVal(t) + 1]
                ELSE "Other(" \o t \o ")"
ParamNames == [H |-> "ImageFlipHorizontal", V |-> "ImageFlipVertical", A |-> "UseAdditiveColourBlending"]

\* a command: kind, easing (text), start and end time ("" when left out), values, nested commands
Cmd(kind, ez, st, et, vals) ==
  [ok |-> TRUE, kind |-> kind, ez |-> ez, st |-> st, et |-> et, vals |-> vals, kids |-> <<>>]
CmdErr(m) == [ok |-> FALSE, msg |-> m]
Missing(f) == CmdErr("Missing `" \o f \o "` field")
Invalid(f) == CmdErr("Invalid `" \o f \o "` value")
Nests(c) == c.kind \in {"L", "T"}

\* field starting at position i of s, and the position of the comma after it
Fld(s, i) == FieldAt(s, i, ",")
FldEnd(s, i) == SkipTo(s, i, {","})

\* the fields from position i on (i is at a comma or at the end)
RECURSIVE RestFields(_, _)
RestFields(s, i) == IF i > Len(s) THEN <<>> ELSE <<Fld(s, i + 1)>> \o RestFields(s, FldEnd(s, i + 1))

U8(t) == ParseInt(t, "u8")
AllU8(q) == \A i \in 1..Len(q) : U8(q[i]).ok
AllParams(q) == \A i \in 1..Len(q) : q[i] \in DOMAIN ParamNames

\* commands with the common head  KIND,easing,start,end  ; p is after the kind
Headed(s, p, kind, Values(_, _, _)) ==
  LET e1 == FldEnd(s, p + 1)
      ez == ParseInt(Fld(s, p + 1), "i32")
      none == StartsAt(s, e1, ",,,")
      e2 == FldEnd(s, e1 + 1)
      st == ParseInt(Fld(s, e1 + 1), "i32")
      e3 == FldEnd(s, e2 + 1)
      etT == Fld(s, e2 + 1)
      et == ParseInt(etT, "i32")
  IN IF ~StartsAt(s, p, ",") THEN Missing("easing")
     ELSE IF ~ez.ok THEN Invalid("easing")
     ELSE IF none THEN Values(RestFields(s, e1 + 2), [ez |-> ez.txt, st |-> "", et |-> ""], kind)
     ELSE IF ~StartsAt(s, e1, ",") THEN Missing("start_time")
     ELSE IF ~st.ok THEN Invalid("start_time")
     ELSE IF ~StartsAt(s, e2, ",") THEN Missing("end_time")
     ELSE IF ~IsBlankText(etT) /\ ~et.ok THEN Invalid("end_time")
     ELSE Values(RestFields(s, e3),
                 [ez |-> ez.txt, st |-> st.txt, et |-> IF IsBlankText(etT) THEN "" ELSE et.txt], kind)

Of(kind, h, vals) == Cmd(kind, h.ez, h.st, h.et, vals)
Decs(q) == MapSeq(q, CanonDec)
ValNames == [F |-> <<"start_opacity">>, S |-> <<"start_scale">>, R |-> <<"start_rotation">>,
             MX |-> <<"move_x">>, MY |-> <<"move_y">>, M |-> <<"move_x", "move_y">>,
             V |-> <<"scale_x", "scale_y">>]
DecValues(q, h, kind) ==
  IF Len(q) < Len(ValNames[kind]) THEN Missing(ValNames[kind][Len(q) + 1]) ELSE Of(kind, h, Decs(q))
Rgb == <<"red", "green", "blue">>
ColourValues(q, h, kind) ==
  LET bad == {i \in 1..3 : i > Len(q) \/ ~U8(q[i]).ok}
      b == CHOOSE i \in bad : \A j \in bad : i <= j
  IN IF bad # {} THEN IF b > Len(q) THEN Missing(Rgb[b]) ELSE Invalid(Rgb[b])
     ELSE IF ~AllU8(q) THEN CmdErr("Invalid continuing colour value")
     ELSE Of(kind, h, MapSeq(q, LAMBDA t : U8(t).txt))
ParamValues(q, h, kind) ==
  IF q = <<>> THEN Missing("parameter_type")
  ELSE IF q[1] \notin DOMAIN ParamNames THEN Invalid("parameter_type")
  ELSE IF ~AllParams(q) THEN CmdErr("Invalid continuing parameter value")
  ELSE Of(kind, h, q)

ParseLoop(s, p) ==
  LET e == FldEnd(s, p + 1)
      st == ParseInt(Fld(s, p + 1), "i32")
      none == StartsAt(s, p, ",,")
      q == IF none THEN p + 1 ELSE e
      n == ParseInt(From(s, q + 1), "u32")
  IN IF ~StartsAt(s, p, ",") THEN Missing("start_time")
     ELSE IF ~none /\ ~st.ok THEN Invalid("start_time")
     ELSE IF ~StartsAt(s, q, ",") THEN Missing("loop_count")
     ELSE IF ~n.ok THEN Invalid("loop_count")
     ELSE Cmd("L", "", IF none THEN "" ELSE st.txt, "", <<n.txt>>)

ParseTriggerCmd(s, p) ==
  LET e == FldEnd(s, p + 1)
      ty == ParseTrigger(Fld(s, p + 1))
      none == StartsAt(s, e, ",,") \/ IsBlankText(From(s, e))
      st == ParseInt(Fld(s, e + 1), "i32")
      q == IF StartsAt(s, e, ",,") THEN e + 1
           ELSE IF IsBlankText(From(s, e)) THEN Len(s) + 1 ELSE FldEnd(s, e + 1)
      r == From(s, q)
      f1 == ParseInt(Fld(s, q + 1), "i32")
      q2 == FldEnd(s, q + 1)
      grp == ParseInt(From(s, q2 + 1), "i32")
      grp2 == ParseInt(From(s, q + 2), "i32")
      endOnly == ParseInt(From(s, q + 1), "i32")
      T(et, g) == Cmd("T", "", IF none THEN "" ELSE st.txt, et, <<ty.txt, g, ty.obs>>)
  IN IF ~StartsAt(s, p, ",") THEN Missing("trigger_type")
     ELSE IF ~ty.ok THEN Invalid("trigger_type")
     ELSE IF ~none /\ ~st.ok THEN Invalid("start_time")
     ELSE IF StartsAt(s, q, ",") /\ f1.ok /\ StartsAt(s, q2, ",")
          THEN IF grp.ok THEN T(f1.txt, grp.txt) ELSE Invalid("group_number")
     ELSE IF StartsAt(s, q, ",,") THEN IF grp2.ok THEN T("", grp2.txt) ELSE Invalid("group_number")
     ELSE IF IsBlankText(r) \/ r = "," THEN T("", "")
     ELSE IF endOnly.ok THEN T(endOnly.txt, "") ELSE Invalid("end_time")

Indent == {" ", "_"}
IndentOf(line) == SkipIn(line, 1, Indent) - 1

ParseCommand(line) ==
  LET b == SkipIn(line, 1, Indent)
      Is(t) == StartsAt(line, b, t)
  IN CASE Is("M,") -> Headed(line, b + 1, "M", DecValues)
       [] Is("R") -> Headed(line, b + 1, "R", DecValues)
       [] Is("S") -> Headed(line, b + 1, "S", DecValues)
       [] Is("V") -> Headed(line, b + 1, "V", DecValues)
       [] Is("F") -> Headed(line, b + 1, "F", DecValues)
       [] Is("P") -> Headed(line, b + 1, "P", ParamValues)
       [] Is("MY") -> Headed(line, b + 2, "MY", DecValues)
       [] Is("C") -> Headed(line, b + 1, "C", ColourValues)
       [] Is("MX") -> Headed(line, b + 2, "MX", DecValues)
       [] Is("T") -> ParseTriggerCmd(line, b + 1)
       [] Is("L") -> ParseLoop(line, b + 1)
       [] OTHER -> CmdErr("Unknown command type")

(* ------------------------------- printing ------------------------------- *)
CmdFields(c) ==
  CASE c.kind = "L" -> c.st \o "," \o c.vals[1]
    [] c.kind = "T" ->
         LET g == c.vals[2] IN
         c.vals[1] \o (IF c.st # "" \/ c.et # "" \/ g # "" THEN "," ELSE "")
           \o c.st \o (IF c.et # "" \/ g # "" THEN "," ELSE "")
           \o c.et \o (IF g # "" THEN "," ELSE "") \o g
    [] OTHER -> Join(<<c.ez, c.st, c.et>> \o c.vals, ",")
CmdText(c, vars) == c.kind \o "," \o (IF vars = <<>> THEN CmdFields(c) ELSE Refer(CmdFields(c), vars))

TimeObs(t) == IF t = "" THEN "-" ELSE t
CmdObs(c) ==
  Join(<<c.kind, TimeObs(c.st)>>
       \o (CASE c.kind = "L" -> <<c.vals[1]>>
             [] c.kind = "T" -> <<c.vals[3], TimeObs(c.et), TimeObs(c.vals[2])>>
             [] c.kind = "P" -> <<EasingObs(c.ez), TimeObs(c.et),
                                  Join(MapSeq(c.vals, LAMBDA v : ParamNames[v]), " ")>>
             [] OTHER -> <<EasingObs(c.ez), TimeObs(c.et), Join(c.vals, " ")>>), "|")
=============================================================================
