------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* The Events section (also of .osb files): comments, background, video,   *)
(* breaks, colour transformations, legacy sprites/animations/samples,      *)
(* storyboard sprites and animations, audio samples, and the commands that *)
(* follow an event.                                                        *)
(***************************************************************************)
EXTENDS SbTree, TimingPoints

EvErr(m) == [ok |-> FALSE, msg |-> m]
MissF(f) == EvErr("Missing `" \o f \o "` field")
InvF(f)  == EvErr("Invalid `" \o f \o "` value")
Ev(kind, f, path, pos) == [ok |-> TRUE, kind |-> kind, f |-> f, path |-> path, pos |-> pos, cmds |-> <<>>]

\* integer times: 24 ms later in versions 3 and 4
InInt(t, ver) == IF ~Legacy(ver) THEN IntOk(t)
                 ELSE LET r == TxtAdd(t, LegacyShift) IN IF FitsI32(r) THEN IntOk(r) ELSE IntErr("")
TimeField(s, ver) == LET r == ParseInt(s, "i32") IN IF r.ok THEN InInt(r.txt, ver) ELSE r
OutInt(t, ver) == IF ~Legacy(ver) THEN t
                  ELSE LET r == TxtAdd(t, "-" \o LegacyShift) IN IF FitsI32(r) THEN r ELSE "-2147483648"

(* ------------------------------ file paths ------------------------------ *)
\* written with quotes when there is a space in it and it is not quoted already
PathText(p) == IF Contains(p, " ") /\ ~(StartsWith(p, "\"") /\ EndsWith(p, "\"")) THEN "\"" \o p \o "\"" ELSE p

(* ------------------------------- headers -------------------------------- *)
NumHeaders == <<"0", "1", "Video", "2", "Break", "3", "4", "5", "6">>
HeaderKind == [i \in 1..9 |-> <<"bg", "video", "video", "break", "break", "colour", "sprite4", "anim5", "sample6">>[i]]
\* the kind of event a line without indentation is
HeaderOf(line) ==
  LET hit == {i \in 1..9 : StartsWith(line, NumHeaders[i])
                           /\ (Len(line) = Len(NumHeaders[i]) \/ StartsAt(line, Len(NumHeaders[i]) + 1, ","))}
  IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE

(* ---------------------------- file and position ------------------------- *)
NoPos == <<>>
\* from position p (right after the comma in front of the file name)
FileAndPos(s, p, Make(_, _)) ==
  LET e1 == FldEnd(s, p)
      e2 == FldEnd(s, e1 + 1)
  IN IF e1 > Len(s) THEN Make(Fld(s, p), NoPos)
     ELSE IF e2 > Len(s) THEN MissF("y")
     ELSE Make(Fld(s, p), <<CanonDec(Fld(s, e1 + 1)), CanonDec(From(s, e2 + 1))>>)

ParseBgVideo(s, kind, h, ver) ==
  LET p == Len(h) + 1
      e == FldEnd(s, p + 1)
      t == IF kind = "bg" THEN ParseInt(Fld(s, p + 1), "i32") ELSE TimeField(Fld(s, p + 1), ver)
  IN IF p > Len(s) THEN MissF("start_time")
     ELSE IF ~t.ok THEN InvF("start_time")
     ELSE IF e > Len(s) THEN MissF("file_name")
     ELSE FileAndPos(s, e + 1, LAMBDA f, q : Ev(kind, <<h, t.txt>>, f, q))

ParseBreak(s, h, ver) ==
  LET p == Len(h) + 1
      e == FldEnd(s, p + 1)
      a == TimeField(Fld(s, p + 1), ver)
      b == TimeField(From(s, e + 1), ver)
  IN IF p > Len(s) THEN MissF("start_time")
     ELSE IF ~a.ok THEN InvF("start_time")
     ELSE IF e > Len(s) THEN MissF("end_time")
     ELSE IF ~b.ok THEN InvF("end_time")
     ELSE Ev("break", <<h, a.txt, b.txt>>, "", NoPos)

ParseColourEv(s, h, ver) ==
  LET p == Len(h) + 1
      e1 == FldEnd(s, p + 1)
      t == TimeField(Fld(s, p + 1), ver)
      e2 == FldEnd(s, e1 + 1)
      r == U8(Fld(s, e1 + 1))
      e3 == FldEnd(s, e2 + 1)
      g == U8(Fld(s, e2 + 1))
      b == U8(From(s, e3 + 1))
  IN IF p > Len(s) THEN MissF("start_time")
     ELSE IF ~t.ok THEN InvF("start_time")
     ELSE IF e1 > Len(s) THEN MissF("red")
     ELSE IF ~r.ok THEN InvF("red")
     ELSE IF e2 > Len(s) THEN MissF("green")
     ELSE IF ~g.ok THEN InvF("green")
     ELSE IF e3 > Len(s) THEN MissF("blue")
     ELSE IF ~b.ok THEN InvF("blue")
     ELSE Ev("colour", <<h, t.txt, r.txt, g.txt, b.txt>>, "", NoPos)

LegacyLayers  == <<"Background", "Fail", "Pass", "Foreground", "Overlay", "Video">>
LegacyOrigins == <<"TopLeft", "Centre", "CentreLeft", "TopRight", "BottomCentre", "TopCentre", "Custom",
                   "CentreRight", "BottomLeft", "BottomRight">>
\* a number below n, as text; "" if it is none
Below(s, n) == LET r == ParseInt(s, "usize")
               IN IF r.ok /\ Len(r.txt) = 1 /\ NatVal(r.txt, 1, 0) < n THEN r.txt ELSE ""

ParseSpriteLegacy(s, kind, h) ==
  LET p == Len(h) + 1
      e1 == FldEnd(s, p + 1)
      l == Below(Fld(s, p + 1), 6)
      e2 == FldEnd(s, e1 + 1)
      o == Below(Fld(s, e1 + 1), 10)
  IN IF p > Len(s) THEN MissF("layer")
     ELSE IF l = "" THEN InvF("layer")
     ELSE IF e1 > Len(s) THEN MissF("origin")
     ELSE IF o = "" THEN InvF("origin")
     ELSE IF e2 > Len(s) THEN MissF("file_name")
     ELSE FileAndPos(s, e2 + 1, LAMBDA f, q : Ev(kind, <<h, l, o>>, f, q))

Vol(s) == LET r == U8(s) IN IF r.ok /\ NatLeq(r.txt, "100") THEN r.txt ELSE ""
ParseSampleLegacy(s, h) ==
  LET p == Len(h) + 1
      e1 == FldEnd(s, p + 1)
      e2 == FldEnd(s, e1 + 1)
      l == Below(Fld(s, e1 + 1), 6)
      e3 == FldEnd(s, e2 + 1)
      v == Vol(From(s, e3 + 1))
      M(vol) == Ev("sample6", <<h, CanonDec(Fld(s, p + 1)), l, vol>>, Fld(s, e2 + 1), NoPos)
  IN IF p > Len(s) THEN MissF("time")
     ELSE IF e1 > Len(s) THEN MissF("layer")
     ELSE IF l = "" THEN InvF("layer")
     ELSE IF e2 > Len(s) THEN MissF("file_name")
     ELSE IF e3 > Len(s) THEN M("")
     ELSE IF v = "" THEN InvF("volume") ELSE M(v)

\* Sample,time,layer,"file"[,volume]
ParseAudioSample(s) ==
  LET p == 7
      e1 == FldEnd(s, p + 1)
      t == ParseInt(Fld(s, p + 1), "i32")
      e2 == FldEnd(s, e1 + 1)
      l == Below(Fld(s, e1 + 1), 4)
      e3 == FldEnd(s, e2 + 1)
      v == Vol(Fld(s, e3 + 1))
      M(vol) == Ev("Sample", <<"Sample", t.txt, l, vol>>, Fld(s, e2 + 1), NoPos)
  IN IF ~StartsWith(s, "Sample") THEN EvErr("Unknown event type")
     ELSE IF ~StartsAt(s, p, ",") THEN MissF("time")
     ELSE IF ~t.ok THEN InvF("time")
     ELSE IF e1 > Len(s) THEN MissF("layer")
     ELSE IF l = "" THEN InvF("layer")
     ELSE IF e2 > Len(s) THEN MissF("filepath")
     ELSE IF e3 > Len(s) THEN M("100")
     ELSE IF v = "" THEN InvF("volume") ELSE M(v)

(* -------------------------- storyboard objects -------------------------- *)
SbLayers == {"Background", "Fail", "Pass", "Foreground", "Overlay"}
OriginNames == {LegacyOrigins[i] : i \in 1..10}
SMiss(f) == EvErr("Missing " \o f \o " field")
SInv(f)  == EvErr("Invalid " \o f \o " value")
ParseSbObject(s, kind) ==
  LET p  == Len(kind) + 1
      e1 == FldEnd(s, p + 1)
      l  == Fld(s, p + 1)
      e2 == FldEnd(s, e1 + 1)
      o  == Fld(s, e1 + 1)
      oi == ParseInt(o, "i32")
      ot == IF o \in OriginNames THEN o ELSE oi.txt
      e3 == FldEnd(s, e2 + 1)
      f  == Fld(s, e2 + 1)
      e4 == FldEnd(s, e3 + 1)
      x  == CanonDec(Fld(s, e3 + 1))
      e5 == FldEnd(s, e4 + 1)
      y  == CanonDec(Fld(s, e4 + 1))
      e6 == FldEnd(s, e5 + 1)
      n  == ParseInt(Fld(s, e5 + 1), "u32")
      e7 == FldEnd(s, e6 + 1)
      dl == Dec(Fld(s, e6 + 1))
      lt == From(s, e7 + 1)
      A(loop) == Ev(kind, <<kind, l, ot, n.txt, DecText(dl), loop>>, f, <<x, y>>)
  IN IF ~StartsAt(s, p, ",") THEN SMiss("layer")
     ELSE IF l \notin SbLayers THEN SInv("layer")
     ELSE IF e1 > Len(s) THEN SMiss("origin")
     ELSE IF o \notin OriginNames /\ ~oi.ok THEN SInv("origin")
     ELSE IF e2 > Len(s) THEN SMiss("file path")
     ELSE IF e3 > Len(s) THEN SMiss("position x")
     ELSE IF e4 > Len(s) THEN SMiss("position y")
     ELSE IF kind = "Sprite" THEN Ev(kind, <<kind, l, ot>>, f, <<x, y>>)
     ELSE IF e5 > Len(s) THEN SMiss("frame count")
     ELSE IF ~n.ok THEN SInv("frame count")
     ELSE IF e6 > Len(s) THEN SMiss("frame delay")
     ELSE IF ~dl.num THEN SInv("frame delay")
     ELSE IF e7 > Len(s) THEN A("LoopForever")
     ELSE IF lt \in {"LoopForever", "LoopOnce"} THEN A(lt) ELSE SInv("loop type")

(* ------------------------------- the section ----------------------------- *)
ParseEvent(line, ver) ==
  LET h == HeaderOf(line)
      t == NumHeaders[h]
      k == HeaderKind[h]
  IN IF h # 0 THEN
       CASE k \in {"bg", "video"} -> ParseBgVideo(line, k, t, ver)
         [] k = "break" -> ParseBreak(line, t, ver)
         [] k = "colour" -> ParseColourEv(line, t, ver)
         [] k \in {"sprite4", "anim5"} -> ParseSpriteLegacy(line, k, t)
         [] k = "sample6" -> ParseSampleLegacy(line, t)
     ELSE IF StartsWith(line, "Sprite") THEN ParseSbObject(line, "Sprite")
     ELSE IF StartsWith(line, "Animation") THEN ParseSbObject(line, "Animation")
     ELSE ParseAudioSample(line)

TakesCommands(e) == e.kind \in {"bg", "video", "sprite4", "anim5", "sample6", "Sprite", "Animation"}

\* one line of the section: the events so far and what the line makes of them
EvStep(evs, line, ver, vars) ==
  LET n == Len(evs)
      ind == IndentOf(line)
      c == ParseCommand(Expand(line, vars))
      r == Push(evs[n].cmds, c, ind)
      e == ParseEvent(line, ver)
  IN IF IsBlankText(line) THEN [ok |-> TRUE, evs |-> evs]
     ELSE IF StartsWith(line, "//")
          THEN [ok |-> TRUE, evs |-> Append(evs, Ev("comment", <<From(line, 3)>>, "", NoPos))]
     ELSE IF ind > 0 THEN
            IF n = 0 \/ (n > 0 /\ ~TakesCommands(evs[n]))
            THEN [ok |-> FALSE, msg |-> "A storyboard command was used without defined sprite or animation sprite"]
            ELSE IF ~c.ok THEN [ok |-> FALSE, msg |-> c.msg]
            ELSE IF ~r.ok THEN [ok |-> FALSE, msg |-> r.msg]
            ELSE [ok |-> TRUE, evs |-> [evs EXCEPT ![n].cmds = r.t]]
     ELSE IF e.ok THEN [ok |-> TRUE, evs |-> Append(evs, e)] ELSE [ok |-> FALSE, msg |-> e.msg]

RECURSIVE EvsFrom(_, _, _, _, _)
EvsFrom(ls, i, ver, vars, evs) ==
  IF i > Len(ls) THEN Ok(evs)
  ELSE LET r == EvStep(evs, ls[i], ver, vars)
       IN IF r.ok THEN EvsFrom(ls, i + 1, ver, vars, r.evs) ELSE ErrR(i - 1, r.msg)
ParseEventsVars(s, ver, vars) == EvsFrom(Lines(s), 1, ver, vars, <<>>)
ParseEvents(s, ver) == ParseEventsVars(s, ver, <<>>)

(* ------------------------------- printing ------------------------------- *)
PosText(q) == IF q = NoPos THEN "" ELSE "," \o q[1] \o "," \o q[2]
EvHead(e, ver) ==
  LET f == e.f IN
  CASE e.kind = "comment" -> "//" \o f[1]
    [] e.kind = "bg" -> f[1] \o "," \o f[2] \o "," \o PathText(e.path) \o PosText(e.pos)
    [] e.kind = "video" -> f[1] \o "," \o OutInt(f[2], ver) \o "," \o PathText(e.path) \o PosText(e.pos)
    [] e.kind = "break" -> f[1] \o "," \o OutInt(f[2], ver) \o "," \o OutInt(f[3], ver)
    [] e.kind = "colour" -> f[1] \o "," \o OutInt(f[2], ver) \o "," \o f[3] \o "," \o f[4] \o "," \o f[5]
    [] e.kind \in {"sprite4", "anim5"} -> Join(f, ",") \o "," \o PathText(e.path) \o PosText(e.pos)
    [] e.kind = "sample6" -> f[1] \o "," \o f[2] \o "," \o f[3] \o "," \o PathText(e.path)
                               \o (IF f[4] = "" THEN "" ELSE "," \o f[4])
    [] e.kind = "Sprite" -> Join(f, ",") \o "," \o PathText(e.path) \o PosText(e.pos)
    [] e.kind = "Animation" -> Join(<<f[1], f[2], f[3]>>, ",") \o "," \o PathText(e.path) \o PosText(e.pos)
                               \o "," \o f[4] \o "," \o f[5] \o "," \o f[6]
    [] e.kind = "Sample" -> f[1] \o "," \o f[2] \o "," \o f[3] \o "," \o PathText(e.path) \o "," \o f[4]
\* colour transformations do not exist in version 14
EvWritten(e, ver) == e.kind = "colour" => ver < 14
UsesVariables(e) == e.kind \in {"sprite4", "anim5", "sample6", "Sprite", "Animation"}
EvText(e, ver, vars) ==
  Join(<<EvHead(e, ver)>> \o TreeText(e.cmds, IF UsesVariables(e) THEN vars ELSE <<>>), "\n")
PrintEventsVars(evs, ver, vars) ==
  Join(MapSeq(SelectSeq(evs, LAMBDA e : EvWritten(e, ver)), LAMBDA e : EvText(e, ver, vars)), "\n")
PrintEvents(evs, ver) == PrintEventsVars(evs, ver, <<>>)

(* ------------------------------ observation ----------------------------- *)
PosObs(q) == IF q = NoPos THEN "-" ELSE q[1] \o ";" \o q[2]
Nat1(t) == NatVal(t, 1, 0) + 1
OriginObs(t) == IF t \in OriginNames THEN t \o "/n"
                ELSE IF Len(t) = 1 THEN LegacyOrigins[Nat1(t)] \o "/y" ELSE t \o "/y"
EvObs(e) ==
  LET f == e.f IN
  Join(CASE e.kind = "comment" -> <<"comment", f[1]>>
         [] e.kind \in {"bg", "video"} -> <<e.kind, f[2], e.path, PosObs(e.pos)>>
         [] e.kind = "break" -> <<e.kind, f[2], f[3]>>
         [] e.kind = "colour" -> <<e.kind, f[2], f[3], f[4], f[5]>>
         [] e.kind \in {"sprite4", "anim5"} ->
              <<e.kind, LegacyLayers[Nat1(f[2])], LegacyOrigins[Nat1(f[3])], e.path, PosObs(e.pos)>>
         [] e.kind = "sample6" -> <<e.kind, f[2], LegacyLayers[Nat1(f[3])], e.path, IF f[4] = "" THEN "-" ELSE f[4]>>
         [] e.kind = "Sprite" -> <<e.kind, f[2], OriginObs(f[3]), e.path, PosObs(e.pos)>>
         [] e.kind = "Animation" -> <<e.kind, f[2], OriginObs(f[3]), e.path, PosObs(e.pos), f[4], f[5], f[6]>>
         [] e.kind = "Sample" -> <<e.kind, f[2], LegacyLayers[Nat1(f[3])], e.path, f[4]>>, "|")
ObsEvents(evs) ==
  LET RECURSIVE G(_)
      G(i) == IF i > Len(evs) THEN <<>> ELSE <<EvObs(evs[i])>> \o TreeObs(evs[i].cmds) \o G(i + 1)
  IN Join(G(1), "\n")
=============================================================================
