------------------------------ MODULE Vectors -------------------------------
(***************************************************************************)
(* Expected behaviours, as data.  A vector says what the code has to do    *)
(* with one text: the outcome, the error and its line, the value that can  *)
(* be observed, and the text written for every version of the format.      *)
(***************************************************************************)
EXTENDS Document, Json

\* ---- one parse / print interface over every kind of text -----------------
Parse(k, t, v) == CASE k = "doc" -> ParseDoc(t)
                    [] k = "osb" -> ParseOsb(t, v)
                    [] OTHER -> ParseSection(k, t, v)
Exists(k, v) == CASE k = "osb" -> OsbExists(v)
                  [] k = "doc" -> TRUE
                  [] OTHER -> SectionWritten(k, v)
\* documents are written without their version line here
DocBody(d, v) == LET q == DocSections(d, v)
                 IN Join(MapSeq(q, LAMBDA n : "[" \o n \o "]\n" \o PrintSection(n, d.secs[n].v, v)), "\n\n")
Write(k, x, v) == CASE k = "doc" -> DocBody(x, v)
                    [] k = "osb" -> PrintOsb(x, v)
                    [] OTHER -> PrintSection(k, x, v)
FullText(k, t, v) == IF k = "doc" THEN "osu file format v" \o ToString(v) \o "\n\n" \o t ELSE t
Observe(k, x) == CASE k = "doc" -> ObsDoc(x)
                   [] k = "osb" -> ObsOsb(x)
                   [] OTHER -> ObsSection(k, x)

\* ---- texts per version, grouped ------------------------------------------
RECURSIVE GroupFrom(_, _, _)
GroupFrom(pv, T, acc) ==
  IF pv = <<>> THEN acc
  ELSE LET v == Head(pv)
           i == {j \in 1..Len(acc) : acc[j].t = T[v]}
       IN GroupFrom(Tail(pv), T,
            IF i = {} THEN Append(acc, [t |-> T[v], vs |-> <<v>>])
            ELSE LET j == CHOOSE j \in i : TRUE IN [acc EXCEPT ![j].vs = Append(@, v)])
Groups(k, x, pv) ==
  LET q == SelectSeq(pv, LAMBDA v : Exists(k, v))
      T == [v \in {q[i] : i \in 1..Len(q)} |-> Write(k, x, v)]
  IN GroupFrom(q, T, <<>>)

\* ---- round trips ----------------------------------------------------------
\* writing x for version v and reading it back gives a value that is written the same
\* ("text"), that is moreover the same value ("value"), or neither ("no")
RoundTrip(k, x, v) ==
  IF ~Exists(k, v) THEN "value"
  ELSE LET t == Write(k, x, v)
           r == Parse(k, FullText(k, t, v), v)
       IN IF r.st # "ok" THEN "no"
          ELSE IF Write(k, r.v, v) # t THEN "no"
          ELSE IF Observe(k, r.v) = Observe(k, x) THEN "value" ELSE "text"

AllVersions == [i \in 1..12 |-> i + 2]

\* ---- the same text in other places ----------------------------------------
\* what the only line of a section is when it is read alone ("": it is not one line, or a comment)
Objects == {"Sprite", "Animation"}
EventItem(t) ==
  LET h == Upto(t, SkipTo(t, 1, {","}) - 1)
  IN CASE h = "0" -> "Background" [] h \in {"1", "Video"} -> "Video" [] h \in {"2", "Break"} -> "Break" [] h = "3" -> "ColourTransformation"
       [] h = "4" -> "SpriteLegacy" [] h = "5" -> "AnimationLegacy" [] h = "6" -> "SampleLegacy"
       [] h \in Objects -> "Object" [] h = "Sample" -> "AudioSample" [] OTHER -> ""
OneLine(t) == t # "" /\ LfCount(t) = 0 /\ Trim(t) = t
ItemOf(k, t) ==
  LET n == SkipTo(t, 1, {"\n"}) c == From(t, n + 1)
  IN IF OneLine(t) THEN CASE k = "TimingPoints" -> "TimingPoint" [] k = "HitObjects" -> "HitObject" [] k = "Colours" -> "Colour"
                          [] k = "Events" -> EventItem(t) [] OTHER -> ""
     ELSE IF k = "Events" /\ EventItem(Upto(t, n - 1)) = "Object" /\ Parse(k, Upto(t, n - 1), 14).st = "ok" /\ StartsAt(c, 1, " ") /\ ~StartsAt(c, 2, " ") /\ ~StartsAt(c, 2, "_") /\ OneLine(From(c, 2)) THEN "Command"
     ELSE ""
\* the text can stand in a file as it is
Embeds(k, t) == IsSection(k) /\ t # "" /\ Sub(t, 1, 1) \notin UniWs /\ Sub(t, Len(t), Len(t)) # "\n"
                /\ SkipTo(t, 1, {"[", "\r"}) > Len(t)
\* and then means the same, three lines further down
FileHead(k, v) == "osu file format v" \o ToString(v) \o "\n\n[" \o k \o "]\n"
SameInFile(x) ==
  Embeds(x.k, x.t) =>
    LET d == ParseDoc(FileHead(x.k, x.v) \o x.t)
    IN IF x.st = "err" THEN d.st = "err" /\ d.line = x.line + 3 /\ d.msg = x.msg
       ELSE d.st = "ok" /\ ObsDoc(d.v) = "v" \o ToString(x.v) \o (IF x.st = "ok" THEN "\n[" \o x.k \o "]\n" \o x.obs ELSE "")
Place(k, t) == [item |-> ItemOf(k, t), file |-> IF Embeds(k, t) THEN "y" ELSE "n"]

Lost(r) == IF "lost" \in DOMAIN r THEN r.lost ELSE 0
\* rt: the versions whose round trip is judged: 0 none, 1 only v, 2 every one in pv
Vec(k, t, v, pv, rt, tag) ==
  LET r == Parse(k, t, v)
      q == CASE rt = 0 -> <<>> [] rt = 1 -> <<v>> [] OTHER -> pv
  IN Place(k, t) @@
     CASE r.st = "ok" -> [k |-> k, t |-> t, v |-> v, pv |-> pv, tag |-> tag, st |-> "ok",
                          obs |-> Observe(k, r.v), pr |-> Groups(k, r.v, pv),
                          rt |-> [i \in 1..Len(q) |-> [v |-> q[i], r |-> RoundTrip(k, r.v, q[i])]]]
       [] r.st = "none" -> [k |-> k, t |-> t, v |-> v, pv |-> pv, tag |-> tag, st |-> "none"]
       [] OTHER -> [k |-> k, t |-> t, v |-> v, pv |-> pv, tag |-> tag, st |-> "err",
                    line |-> r.line, lost |-> Lost(r), msg |-> r.msg]
\* the round trips of a vector are never worse than "text"
VecStable(x) == x.st = "ok" => \A i \in 1..Len(x.rt) : x.rt[i].r # "no"
VecSame(x) == x.st = "ok" => \A i \in 1..Len(x.rt) : x.rt[i].r = "value"

Emit(x) == PrintT("@V@" \o ToJson(x))
=============================================================================
