------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* A whole .osu document: version line, lines above the sections, sections *)
(* in any order, each at most once.  A whole .osb document: Variables and  *)
(* Events.  Also where an error is reported: the (0-based) line of the     *)
(* text that holds the problem.                                            *)
(***************************************************************************)
EXTENDS Colours, HitObjects, Events

MinVersion == 3
MaxVersion == 14
SectionNames == <<"General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects">>
IsSection(n) == \E i \in 1..Len(SectionNames) : SectionNames[i] = n

ParseSection(n, s, ver) ==
  CASE n \in KVSections     -> ParseKV(n, s, ver)
    [] n = "Events"         -> ParseEvents(s, ver)
    [] n = "TimingPoints"   -> ParseTimingPoints(s, ver)
    [] n = "Colours"        -> ParseColours(s, ver)
    [] n = "HitObjects"     -> ParseHitObjects(s, ver)
\* does a section of this name exist in files of this version?
SectionWritten(n, ver) == n = "Colours" => ColoursExist(ver)
PrintSection(n, v, ver) ==
  CASE n \in KVSections     -> PrintKV(n, v, ver)
    [] n = "Events"         -> PrintEvents(v, ver)
    [] n = "TimingPoints"   -> PrintTimingPoints(v, ver)
    [] n = "Colours"        -> PrintColours(v, ver)
    [] n = "HitObjects"     -> PrintHitObjects(v, ver)
ObsSection(n, v) ==
  CASE n \in KVSections     -> ObsKV(n, v)
    [] n = "Events"         -> ObsEvents(v)
    [] n = "TimingPoints"   -> ObsTimingPoints(v)
    [] n = "Colours"        -> ObsColours(v)
    [] n = "HitObjects"     -> ObsHitObjects(v)

(* -------------------------- cutting into sections ------------------------ *)
\* lines above the first section
Above(l) == LET t == Trim(l) IN StartsWith(t, "//") \/ (~StartsWith(t, "[") /\ ~EndsWith(t, "]"))
RECURSIVE AboveCount(_, _)
AboveCount(ls, i) == IF i <= Len(ls) /\ Above(ls[i]) THEN AboveCount(ls, i + 1) ELSE i - 1
\* first line above the sections that is neither blank nor a comment (0: none)
RECURSIVE BadAbove(_, _, _)
BadAbove(ls, n, i) == IF i > n THEN 0
                      ELSE IF IsBlankText(ls[i]) \/ StartsWith(Trim(ls[i]), "//") THEN BadAbove(ls, n, i + 1)
                      ELSE i

\* position of the line end in front of the next header after i (Len+1: none)
RECURSIVE NextHeader(_, _)
NextHeader(s, i) == IF i >= Len(s) THEN Len(s) + 1
                    ELSE IF At(s, i) = "\n" /\ At(s, i + 1) = "[" THEN i ELSE NextHeader(s, i + 1)

\* the sections of s from position p on; line: line of position p;
\* lost: line ends the reported location does not count (see KNOWN-FINDINGS)
RECURSIVE CutFrom(_, _, _, _, _)
CutFrom(s, p, line, lost, acc) ==
  LET h  == SkipIn(s, p, Ws)
      e  == SkipTo(s, h + 1, {"]", "\n"})
      c  == SkipIn(s, e + 1, Ws)
      ce == IF StartsAt(s, c, "[") THEN c ELSE NextHeader(s, c)
      body == Sub(s, c, ce - 1)
      hl == line + LfCount(Sub(s, p, h - 1))
      cl == hl + LfCount(Sub(s, e, c - 1))
  IN IF StartsAt(s, h, "[") /\ StartsAt(s, e, "]")
     THEN CutFrom(s, ce, cl + LfCount(body), lost + (IF EndsWith(body, "\n") THEN 1 ELSE 0),
                  Append(acc, [name |-> Sub(s, h + 1, e - 1), body |-> body, headLine |-> hl,
                               bodyLine |-> cl, lost |-> lost]))
     ELSE [secs |-> acc, rest |-> From(s, p), line |-> line, lost |-> lost]

ErrL(l, lost, m) == [st |-> "err", line |-> l, lost |-> lost, msg |-> m]
DupSectionMsg     == "There are multiple sections defined as the same name"
UnknownSectionMsg == "There is an unknown section"
UnexpectedMsg     == "Unexpected line before any section"

\* what is left when no further header can be read, as an error ("" if nothing is left)
HeaderErr(rest) ==
  LET a == SkipIn(rest, 1, UniWs)
      l == LET q == Lines(From(rest, a)) IN Sub(q[1], 1, BackIn(q[1], Len(q[1]), UniWs))
  IN IF a > Len(rest) THEN ""
     ELSE IF StartsWith(l, "[")
          THEN "The closing bracket of the section is missing, expected `]` after " \o From(l, 2)
          ELSE "The opening bracket of the section is missing, expected `[` before " \o l
RestLine(cut) == cut.line + LfCount(Sub(cut.rest, 1, SkipIn(cut.rest, 1, UniWs) - 1))

(* ------------------------------ .osu documents --------------------------- *)
NoSections == [n \in {SectionNames[i] : i \in 1..8} |-> NoneR]

\* every section of the cut; the first problem in document order is the error
RECURSIVE ReadSecs(_, _, _, _, _)
ReadSecs(cut, i, ver, seen, val) ==
  IF i > Len(cut.secs)
  THEN IF HeaderErr(cut.rest) # "" THEN ErrL(RestLine(cut), cut.lost, HeaderErr(cut.rest))
       ELSE Ok([ver |-> ver, secs |-> val])
  ELSE LET x == cut.secs[i]
           r == ParseSection(x.name, x.body, ver)
       IN IF x.name \in seen THEN ErrL(x.headLine, x.lost, DupSectionMsg)
          ELSE IF ~IsSection(x.name) THEN ErrL(x.headLine, x.lost, UnknownSectionMsg)
          ELSE IF r.st = "err" THEN ErrL(x.bodyLine + r.line, x.lost, r.msg)
          ELSE ReadSecs(cut, i + 1, ver, seen \cup {x.name}, [val EXCEPT ![x.name] = r])

ParseDoc(s) ==
  LET a  == SkipIn(s, 1, Ws)
      l0 == LfCount(Upto(s, a - 1))
      b  == IF StartsAt(s, a, BOM) THEN a + 1 ELSE a
      tag == "osu file format v"
      e  == SkipTo(s, b + Len(tag), {"\r", "\n"})
      v  == ParseInt(Sub(s, b + Len(tag), e - 1), "u8")
      n  == IntVal(v.txt)
      ls == Lines(From(s, e))
      k  == AboveCount(ls, 1)
      bad == BadAbove(ls, k, 1)
      cut == CutFrom(Join(SubSeq(ls, k + 1, Len(ls)), "\n"), 1, l0 + k, 0, <<>>)
  IN IF ~StartsAt(s, b, tag)
     THEN ErrL(l0, 0, "File version defined wrong, expected `osu file format v..` at the start")
     ELSE IF ~v.ok \/ n < MinVersion \/ n > MaxVersion
     THEN ErrL(l0, 0, "Invalid file version, expected versions from 3 ~ 14")
     ELSE IF bad # 0 THEN ErrL(l0 + bad - 1, 0, UnexpectedMsg)
     ELSE ReadSecs(cut, 1, n, {}, NoSections)

\* the sections that a file of this version has, in writing order
DocSections(d, ver) == SelectSeq(SectionNames, LAMBDA n : d.secs[n].st = "ok" /\ SectionWritten(n, ver))
PrintDoc(d, ver) ==
  LET q == DocSections(d, ver)
  IN "osu file format v" \o ToString(ver) \o "\n\n"
     \o Join(MapSeq(q, LAMBDA n : "[" \o n \o "]\n" \o PrintSection(n, d.secs[n].v, ver)), "\n\n")
ObsDoc(d) ==
  LET q == SelectSeq(SectionNames, LAMBDA n : d.secs[n].st = "ok")
  IN Join(<<"v" \o ToString(d.ver)>>
          \o MapSeq(q, LAMBDA n : "[" \o n \o "]\n" \o ObsSection(n, d.secs[n].v)), "\n")

(* ------------------------------ .osb documents --------------------------- *)
OsbExists(ver) == ver >= 14
\* `$name=value`
RECURSIVE VarsFrom(_, _, _)
VarsFrom(ls, i, acc) ==
  IF i > Len(ls) THEN Ok(acc)
  ELSE IF IsBlankText(ls[i]) THEN VarsFrom(ls, i + 1, acc)
  ELSE LET e == SkipTo(ls[i], 2, {"="})
       IN IF At(ls[i], 1) # "$" THEN ErrR(i - 1, "Missing the header `$`")
          ELSE IF e > Len(ls[i]) THEN ErrR(i - 1, "Missing `=` for assignment")
          ELSE VarsFrom(ls, i + 1, Append(acc, [name |-> Sub(ls[i], 2, e - 1), value |-> From(ls[i], e + 1)]))
ParseVariables(s) == VarsFrom(Lines(s), 1, <<>>)

NoOsb == [vars |-> NoneR, events |-> NoneR]
VarsOf(o) == IF o.vars.st = "ok" THEN o.vars.v ELSE <<>>
RECURSIVE ReadOsbSecs(_, _, _, _, _)
ReadOsbSecs(cut, i, ver, seen, val) ==
  IF i > Len(cut.secs)
  THEN IF HeaderErr(cut.rest) # "" THEN ErrL(RestLine(cut), 0, UnknownSectionMsg) ELSE Ok(val)
  ELSE LET x == cut.secs[i]
           r == IF x.name = "Variables" THEN ParseVariables(x.body)
                ELSE ParseEventsVars(x.body, ver, VarsOf(val))
       IN IF x.name \in seen THEN ErrL(x.headLine, 0, DupSectionMsg)
          ELSE IF x.name \notin {"Variables", "Events"} THEN ErrL(x.headLine, 0, UnknownSectionMsg)
          ELSE IF r.st = "err" THEN ErrL(x.bodyLine + r.line, 0, r.msg)
          ELSE ReadOsbSecs(cut, i + 1, ver, seen \cup {x.name},
                           IF x.name = "Variables" THEN [val EXCEPT !.vars = r] ELSE [val EXCEPT !.events = r])
ParseOsb(s, ver) ==
  LET ls == Lines(s)
      k  == AboveCount(ls, 1)
      bad == BadAbove(ls, k, 1)
      cut == CutFrom(Join(SubSeq(ls, k + 1, Len(ls)), "\n"), 1, k, 0, <<>>)
  IN IF ~OsbExists(ver) THEN NoneR
     ELSE IF bad # 0 THEN ErrL(bad - 1, 0, UnexpectedMsg)
     ELSE ReadOsbSecs(cut, 1, ver, {}, NoOsb)

VariableText(v) == "$" \o v.name \o "=" \o v.value
PrintOsb(o, ver) ==
  Join((IF o.vars.st = "ok" THEN <<"[Variables]\n" \o Join(MapSeq(o.vars.v, VariableText), "\n")>> ELSE <<>>)
       \o (IF o.events.st = "ok" THEN <<"[Events]\n" \o PrintEventsVars(o.events.v, ver, VarsOf(o))>> ELSE <<>>),
       "\n\n")
ObsOsb(o) ==
  Join((IF o.vars.st = "ok" THEN <<"[Variables]">> \o MapSeq(o.vars.v, LAMBDA v : v.name \o "|" \o v.value) ELSE <<>>)
       \o (IF o.events.st = "ok" THEN <<"[Events]", ObsEvents(o.events.v)>> ELSE <<>>), "\n")
=============================================================================
