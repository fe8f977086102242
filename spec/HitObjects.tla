----------------------------- MODULE HitObjects -----------------------------
(***************************************************************************)
(* Hit objects: x,y,time,type,hitsound then fields that depend on the kind *)
(* of object (circle, slider, spinner, hold), then an optional hit sample. *)
(***************************************************************************)
EXTENDS TimingPoints

HoErr(m) == [ok |-> FALSE, msg |-> m]

(* ----------------------------- hit samples ----------------------------- *)
NoSample == [some |-> FALSE, nset |-> "0", aset |-> "0", idx |-> "0", vol |-> "0", file |-> ""]
DefSample == [NoSample EXCEPT !.some = TRUE]
SErr == [ok |-> FALSE, v |-> NoSample]
SOk(x) == [ok |-> TRUE, v |-> x]
AllBlank(s) == SkipIn(s, 1, Blank) > Len(s)

\* hit sample text: up to five colon separated parts, each may be left out
\* from the right; a part may also be blank if it is the last one.
ParseSample(s) ==
  LET q == Split(s, ":")
      n == Len(q)
      Gone(i) == i > n \/ (i = n /\ i > 1 /\ AllBlank(q[i]))
      a == ParseInt(q[1], "usize")
      b == ParseInt(q[2], "usize")
      c == ParseInt(q[3], "usize")
      v == ParseInt(q[4], "u8")
      vOk == v.ok /\ NatLeq(v.txt, "100")
  IN IF AllBlank(s) THEN SOk(DefSample)
     ELSE IF ~a.ok THEN SErr
     ELSE IF Gone(2) THEN SOk([DefSample EXCEPT !.nset = a.txt])
     ELSE IF ~b.ok THEN SErr
     ELSE IF Gone(3) THEN SOk([DefSample EXCEPT !.nset = a.txt, !.aset = b.txt])
     ELSE IF ~c.ok THEN SErr
     ELSE IF Gone(4) THEN SOk([DefSample EXCEPT !.nset = a.txt, !.aset = b.txt, !.idx = c.txt])
     ELSE IF ~vOk THEN SErr
     ELSE SOk([DefSample EXCEPT !.nset = a.txt, !.aset = b.txt, !.idx = c.txt, !.vol = v.txt,
                                !.file = IF Gone(5) THEN "" ELSE q[5]])

\* versions before 10 have no hit sample, 10 and 11 have three parts
SampleExists(ver) == ver >= 10
SampleText(h, ver) ==
  h.nset \o ":" \o h.aset \o ":" \o h.idx
    \o (IF ver >= 12 THEN ":" \o h.vol \o ":" \o h.file ELSE "")

\* an optional trailing `,sample`
OptSample(rest) ==
  IF AllBlank(rest) THEN [ok |-> TRUE, msg |-> "", v |-> NoSample]
  ELSE IF At(rest, 1) # "," THEN [ok |-> FALSE, msg |-> "Missing `hit_sample` field", v |-> NoSample]
  ELSE LET r == ParseSample(From(rest, 2))
       IN IF r.ok THEN [ok |-> TRUE, msg |-> "", v |-> r.v]
          ELSE [ok |-> FALSE, msg |-> "Invalid `hit_sample` value", v |-> NoSample]

(* ---------------------------- piped lists ------------------------------- *)
\* items separated by "|"; reading stops in front of the first bad item
ItemStop == {"|", ",", "\r", "\n"}
PointItem(s) == LET c == SkipTo(s, 1, {":"})
                IN [ok |-> c <= Len(s),
                    v |-> <<Dec(Upto(s, c - 1)), Dec(From(s, c + 1))>>]
SoundItem(s) == LET r == ParseInt(s, "u8")
                IN [ok |-> r.ok, v |-> IF r.ok THEN ToString(IntVal(r.txt) % 16) ELSE ""]
SetItem(s) == LET c == SkipTo(s, 1, {":"})
                  a == ParseInt(Upto(s, c - 1), "usize")
                  b == ParseInt(From(s, c + 1), "usize")
              IN [ok |-> c <= Len(s) /\ a.ok /\ b.ok, v |-> a.txt \o ":" \o b.txt]
Item(kind, s) == CASE kind = "point" -> PointItem(s)
                   [] kind = "sound" -> SoundItem(s)
                   [] kind = "set" -> SetItem(s)
\* returns [v, p]: the items and the position of the unread rest
RECURSIVE PipedFrom(_, _, _, _, _)
PipedFrom(kind, s, p, stop, acc) ==
  LET e == SkipTo(s, p, ItemStop)
      r == Item(kind, Sub(s, p, e - 1))
  IN IF ~r.ok THEN [v |-> acc, p |-> stop]
     ELSE IF e <= Len(s) /\ At(s, e) = "|" THEN PipedFrom(kind, s, e + 1, e, Append(acc, r.v))
     ELSE [v |-> Append(acc, r.v), p |-> e]
Piped(kind, s, p) == PipedFrom(kind, s, p, p, <<>>)

(* ------------------------------- objects -------------------------------- *)
CurveTypes == {"B", "C", "L", "P"}
NoParams == [curve |-> "", pts |-> <<>>, slides |-> "", len |-> Verb(""), es |-> <<>>, esShort |-> TRUE,
             sets |-> <<>>, setsShort |-> TRUE, end |-> Verb("")]

Obj(kind, x, y, t, ty, hs, params, sample) ==
  [ok |-> TRUE, kind |-> kind, x |-> x, y |-> y, time |-> t,
   nc |-> Bit(ty, 2) = 1, skip |-> (ty \div 16) % 8, hs |-> hs, params |-> params, sample |-> sample]

\* slider fields from position p of s (p is at the comma before the curve)
ParseSlider(s, p, ver, Make(_, _)) ==
  LET ce   == SkipTo(s, p + 1, {","})
      plain == Sub(s, p + 1, ce - 1)
      pe   == SkipTo(s, p + 1, {"|"})
      typ  == Sub(s, p + 1, pe - 1)
      noPts == plain \in CurveTypes
      pts  == Piped("point", s, pe + 1)
      keptPts == IF ver = 3 /\ pts.v # <<>> THEN Tail(pts.v) ELSE pts.v
      q    == IF noPts THEN ce ELSE pts.p
      se   == SkipTo(s, q + 1, {","})
      slides == ParseInt(Sub(s, q + 1, se - 1), "i32")
      le   == SkipTo(s, se + 1, {","})
      base == [NoParams EXCEPT !.curve = IF noPts THEN plain ELSE typ,
                               !.pts = IF noPts THEN <<>> ELSE keptPts,
                               !.slides = slides.txt,
                               !.len = Dec(Sub(s, se + 1, le - 1))]
      snd  == Piped("sound", s, le + 1)
      set  == Piped("set", s, snd.p + 1)
      withSnd == [base EXCEPT !.es = snd.v, !.esShort = FALSE]
      smp  == OptSample(From(s, set.p))
  IN IF ~StartsAt(s, p, ",") THEN HoErr("Missing `curve_type` field")
     ELSE IF ~noPts /\ typ \notin CurveTypes THEN HoErr("Invalid `curve_type` value")
     ELSE IF ~StartsAt(s, q, ",") THEN HoErr("Missing `slides_count` field")
     ELSE IF ~slides.ok THEN HoErr("Invalid `slides_count` value")
     ELSE IF ~StartsAt(s, se, ",") THEN HoErr("Missing `length` field")
     ELSE IF le > Len(s) THEN Make(base, NoSample)
     ELSE IF AllBlank(From(s, snd.p)) THEN Make(withSnd, NoSample)
     ELSE IF ~StartsAt(s, snd.p, ",") THEN HoErr("Missing `edge_set` field")
     ELSE IF ~smp.ok THEN HoErr(smp.msg)
     ELSE Make([withSnd EXCEPT !.sets = set.v, !.setsShort = FALSE], smp.v)

ParseHo(s, ver) ==
  LET c1 == SkipTo(s, 1, {","})
      c2 == SkipTo(s, c1 + 1, {","})
      c3 == SkipTo(s, c2 + 1, {","})
      c4 == SkipTo(s, c3 + 1, {","})
      c5 == SkipTo(s, c4 + 1, {","})
      x == Dec(Upto(s, c1 - 1))
      y == Dec(Sub(s, c1 + 1, c2 - 1))
      t == InTime(Dec(Sub(s, c2 + 1, c3 - 1)), ver)
      ty == ParseInt(Sub(s, c3 + 1, c4 - 1), "i32")
      hs == ParseInt(Sub(s, c4 + 1, c5 - 1), "u8")
      tyv == IntVal(ty.txt)
      hsv == IntVal(hs.txt) % 16
      rest == From(s, c5)
      c6 == SkipTo(s, c5 + 1, {","})
      tail == OptSample(From(s, c6))
      endSpin == InTime(Dec(Sub(s, c5 + 1, c6 - 1)), ver)
      colon == SkipTo(s, c5 + 1, {":"})
      endHold == InTime(Dec(Sub(s, c5 + 1, colon - 1)), ver)
      hold == ParseSample(From(s, colon + 1))
      own == OptSample(rest)
  IN IF c1 > Len(s) THEN HoErr("Missing `y` field")
     ELSE IF c2 > Len(s) THEN HoErr("Missing `time` field")
     ELSE IF c3 > Len(s) THEN HoErr("Missing `obj_type` field")
     ELSE IF ~ty.ok THEN HoErr("Invalid `obj_type` value")
     ELSE IF c4 > Len(s) THEN HoErr("Missing `hit_sound` field")
     ELSE IF ~hs.ok THEN HoErr("Invalid `hit_sound` value")
     ELSE IF Bit(tyv, 0) = 1 THEN
            IF own.ok THEN Obj("circle", x, y, t, tyv, hsv, NoParams, own.v) ELSE HoErr(own.msg)
     ELSE IF Bit(tyv, 1) = 1 THEN
            ParseSlider(s, c5, ver, LAMBDA pr, sm : Obj("slider", x, y, t, tyv, hsv, pr, sm))
     ELSE IF Bit(tyv, 3) = 1 THEN
            IF c5 > Len(s) THEN HoErr("Missing `end_time` field")
            ELSE IF tail.ok THEN Obj("spinner", x, y, t, tyv, hsv, [NoParams EXCEPT !.end = endSpin], tail.v)
            ELSE HoErr(tail.msg)
     ELSE IF Bit(tyv, 7) = 1 THEN
            IF c5 > Len(s) THEN HoErr("Missing `end_time` field")
            ELSE IF colon > Len(s) THEN HoErr("Invalid `end_time` value")
            ELSE IF hold.ok THEN Obj("hold", x, y, t, tyv, hsv, [NoParams EXCEPT !.end = endHold], hold.v)
            ELSE HoErr("Invalid `hit_sample` value")
     ELSE HoErr("Unknown object type")

RECURSIVE HosFrom(_, _, _, _)
HosFrom(ls, i, ver, acc) ==
  IF i > Len(ls) THEN Ok(acc)
  ELSE IF IsBlankText(ls[i]) THEN HosFrom(ls, i + 1, ver, acc)
  ELSE LET h == ParseHo(ls[i], ver)
       IN IF h.ok THEN HosFrom(ls, i + 1, ver, Append(acc, h)) ELSE ErrR(i - 1, h.msg)
ParseHitObjects(s, ver) == HosFrom(Lines(s), 1, ver, <<>>)

(* ------------------------------- printing ------------------------------- *)
KindBit == [circle |-> 1, slider |-> 2, spinner |-> 8, hold |-> 128]
TypeText(h) == ToString(KindBit[h.kind] + (IF h.nc THEN 4 ELSE 0) + h.skip * 16)

PointText(c) == DecText(c[1]) \o ":" \o DecText(c[2])
HoText(h, ver) ==
  LET head == Join(<<DecText(h.x), DecText(h.y), OutTime(h.time, ver), TypeText(h), ToString(h.hs)>>, ",")
      smp  == h.sample.some /\ SampleExists(ver)
      tail == IF smp THEN "," \o SampleText(h.sample, ver) ELSE ""
      p    == h.params
      \* version 3 lists the position too, and ignores it when it reads
      first == [i \in 1..2 |-> LET d == IF i = 1 THEN h.x ELSE h.y IN IF \E c \in {"|", "\r"} : Contains(DecText(d), c) THEN Dec("0") ELSE d]
      pts  == (IF ver = 3 THEN <<first>> ELSE <<>>) \o p.pts
      ptsT == Join(MapSeq(pts, PointText), "|")
      wantSets == p.sets # <<>> \/ ~p.setsShort \/ h.sample.some
      wantSnd  == wantSets \/ p.es # <<>> \/ ~p.esShort
  IN CASE h.kind = "circle" -> head \o tail \o (IF ver = 3 THEN "," ELSE "")
       [] h.kind = "spinner" -> head \o "," \o OutTime(p.end, ver) \o tail
       [] h.kind = "hold" -> head \o "," \o OutTime(p.end, ver) \o ":"
                               \o (IF smp THEN SampleText(h.sample, ver) ELSE "")
       [] h.kind = "slider" ->
            head \o "," \o p.curve \o (IF pts # <<>> THEN "|" \o ptsT ELSE "")
              \o "," \o p.slides \o "," \o DecText(p.len)
              \o (IF wantSnd THEN "," \o Join(p.es, "|") ELSE "")
              \o (IF wantSets THEN "," \o Join(p.sets, "|") ELSE "")
              \o tail
PrintHitObjects(hs, ver) == Join(MapSeq(hs, LAMBDA h : HoText(h, ver)), "\n")

(* ----------------------------- observation ------------------------------ *)
SampleObs(h) == IF ~h.some THEN "-"
                ELSE Join(<<h.nset, h.aset, h.idx, IF h.vol = "0" THEN "tp" ELSE h.vol, h.file>>, ":")
HsObs(n) == YN(Bit(n, 0) = 1 \/ n = 0) \o YN(Bit(n, 1) = 1) \o YN(Bit(n, 2) = 1) \o YN(Bit(n, 3) = 1)
HoObs(h) ==
  Join(<<h.kind, DecText(h.x), DecText(h.y), DecText(h.time), YN(h.nc), ToString(h.skip), HsObs(h.hs),
         SampleObs(h.sample),
         CASE h.kind = "slider" ->
                Join(<<h.params.curve, Join(MapSeq(h.params.pts, PointText), " "), h.params.slides,
                       DecText(h.params.len), Join(MapSeq(h.params.es, LAMBDA e : HsObs(IntVal(e))), " "),
                       Join(h.params.sets, " ")>>, "/")
           [] h.kind \in {"spinner", "hold"} -> DecText(h.params.end)
           [] OTHER -> "">>, "|")
ObsHitObjects(hs) == Join(MapSeq(hs, HoObs), "\n")
=============================================================================
