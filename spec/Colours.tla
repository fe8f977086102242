------------------------------ MODULE Colours -------------------------------
(***************************************************************************)
(* The Colours section: one colour per line, `Combo<n> : r,g,b`,           *)
(* `SliderTrackOverride : r,g,b`, `SliderBorder : r,g,b`.                  *)
(* The section does not exist before version 5.                            *)
(***************************************************************************)
EXTENDS KeyValue

CErr(m) == [ok |-> FALSE, msg |-> m, kind |-> "", n |-> "", r |-> "", g |-> "", b |-> ""]
CBadCombo == "Invalid additive combo count"
CBadColon == "Invalid colon separator"
CUnknown  == "Unknown colour type"

\* r,g,b from position p of the trimmed line s
ColourRgb(s, p, kind, n) ==
  LET p1 == SkipIn(s, p, Blank)
      e1 == SkipIn(s, p1, Digit)
      r  == ParseInt(Sub(s, p1, e1 - 1), "u8")
      c1 == SkipIn(s, e1, Blank)
      p2 == SkipIn(s, c1 + 1, Blank)
      e2 == SkipIn(s, p2, Digit)
      g  == ParseInt(Sub(s, p2, e2 - 1), "u8")
      c2 == SkipIn(s, e2, Blank)
      p3 == SkipIn(s, c2 + 1, Blank)
      b  == ParseInt(From(s, p3), "u8")
  IN IF e1 = p1 \/ ~r.ok THEN CErr("Invalid red value")
     ELSE IF ~StartsAt(s, c1, ",") THEN CErr("Missing green value")
     ELSE IF e2 = p2 \/ ~g.ok THEN CErr("Invalid green value")
     ELSE IF ~StartsAt(s, c2, ",") THEN CErr("Missing blue value")
     ELSE IF ~b.ok THEN CErr("Invalid blue value")
     ELSE [ok |-> TRUE, msg |-> "", kind |-> kind, n |-> n, r |-> r.txt, g |-> g.txt, b |-> b.txt]

ColourTail(s, p, kind, n) ==
  LET c == SkipIn(s, p, Blank)
  IN IF ~StartsAt(s, c, ":") THEN CErr(CBadColon)
     ELSE ColourRgb(s, SkipIn(s, c + 1, Blank), kind, n)

ParseColour(line) ==
  LET s == Trim(line)
      e == SkipIn(s, 6, Digit)
      n == ParseInt(Sub(s, 6, e - 1), "i32")
  IN CASE StartsWith(s, "Combo") ->
            IF e = 6 \/ ~n.ok THEN CErr(CBadCombo) ELSE ColourTail(s, e, "Combo", n.txt)
       [] StartsWith(s, "SliderTrackOverride") -> ColourTail(s, 20, "SliderTrackOverride", "")
       [] StartsWith(s, "SliderBorder") \/ StartsWith(s, "Sliderborder") ->
            ColourTail(s, 13, "SliderBorder", "")
       [] OTHER -> CErr(CUnknown)

RECURSIVE ColoursFrom(_, _, _)
ColoursFrom(ls, i, acc) ==
  IF i > Len(ls) THEN Ok(acc)
  ELSE IF IsBlankText(ls[i]) THEN ColoursFrom(ls, i + 1, acc)
  ELSE LET c == ParseColour(ls[i])
       IN IF c.ok THEN ColoursFrom(ls, i + 1, Append(acc, c)) ELSE ErrR(i - 1, c.msg)

ParseColours(s, ver) == IF ver <= 4 THEN NoneR ELSE ColoursFrom(Lines(s), 1, <<>>)

ColourText(c) == c.kind \o c.n \o " : " \o c.r \o "," \o c.g \o "," \o c.b
ColoursExist(ver) == ver >= 5
PrintColours(cs, ver) == Join(MapSeq(cs, ColourText), "\n")
ObsColours(cs) == Join([i \in 1..Len(cs) |->
    cs[i].kind \o "|" \o cs[i].n \o "|" \o cs[i].r \o "|" \o cs[i].g \o "|" \o cs[i].b], "\n")
=============================================================================
