---------------------------- MODULE TimingPoints ----------------------------
(***************************************************************************)
(* Timing points: one comma separated line each.                           *)
(*   v3      time,beat_length                                              *)
(*   v4      time,beat_length,meter,sample_set,sample_index[,volume]       *)
(*   v5      ...,volume[,uninherited[,effects]]                            *)
(*   v6..    ...,volume[,uninherited,effects]                              *)
(* Files of versions 3 and 4 carry times 24 ms earlier than they mean.     *)
(***************************************************************************)
EXTENDS KeyValue

LegacyShift == "24"
Legacy(ver) == ver \in 3..4
\* file time -> meant time, and back
InTime(d, ver)  == IF Legacy(ver) THEN DecShift(d, LegacyShift) ELSE d
OutTime(d, ver) == IF Legacy(ver) THEN DecText(DecShift(d, "-" \o LegacyShift)) ELSE DecText(d)

TpErr(m) == [ok |-> FALSE, msg |-> m]
TpOk(t, b, m, ss, si, v, u, e) ==
  [ok |-> TRUE, time |-> t, beat |-> b, meter |-> m, sset |-> ss, sidx |-> si, vol |-> v,
   unin |-> u, eff |-> e]

DefMeter == "4"
DefSampleSet == "1"
DefSampleIndex == "1"
DefVolume == "100"

IsBoolText(s) == LET r == ParseInt(s, "i32") IN r.ok /\ r.txt \in {"0", "1"}

ParseTp(s, ver) ==
  LET q == Split(s, ",")
      n == Len(q)
      time == InTime(Dec(q[1]), ver)
      beat == Dec(q[2])
      meter == ParseInt(q[3], "i32")
      sset == ParseInt(q[4], "i32")
      sidx == ParseInt(q[5], "u32")
      vol  == ParseInt(q[6], "i32")
      Base(si, v, u, e) == TpOk(time, beat, meter.txt, sset.txt, si, v, u, e)
      \* "0"/"1" for a boolean field, "" when absent
      B(t) == ParseInt(t, "i32").txt
  IN IF n < 2 THEN TpErr("Missing `beat_length` field")
     ELSE IF ver <= 3 /\ n > 2 THEN TpErr("Invalid `beat_length` value")
     ELSE IF ver <= 3 THEN TpOk(time, beat, DefMeter, DefSampleSet, DefSampleIndex, DefVolume, "", "")
     ELSE IF n < 3 THEN TpErr("Missing `meter` field")
     ELSE IF ~meter.ok THEN TpErr("Invalid `meter` value")
     ELSE IF n < 4 THEN TpErr("Missing `sample_set` field")
     ELSE IF ~sset.ok THEN TpErr("Invalid `sample_set` value")
     ELSE IF n < 5 THEN TpErr("Missing `sample_index` field")
     ELSE IF ~sidx.ok THEN TpErr("Invalid `sample_index` value")
     ELSE IF n < 6 THEN (IF ver <= 4 THEN Base(sidx.txt, DefVolume, "", "") ELSE TpErr("Missing `volume` field"))
     ELSE IF ver <= 4 THEN (IF n = 6 /\ vol.ok THEN Base(sidx.txt, vol.txt, "", "")
                            ELSE TpErr("Invalid `volume` value"))
     ELSE IF ~vol.ok THEN TpErr("Invalid `volume` value")
     ELSE IF n = 6 THEN Base(sidx.txt, vol.txt, "", "")
     ELSE IF ~IsBoolText(q[7]) THEN TpErr("Invalid `uninherited` value")
     ELSE IF n = 7 THEN (IF ver <= 5 THEN Base(sidx.txt, vol.txt, B(q[7]), "")
                         ELSE TpErr("Missing `effects` field"))
     ELSE IF n = 8 /\ ParseInt(q[8], "u32").ok
          THEN Base(sidx.txt, vol.txt, B(q[7]), ParseInt(q[8], "u32").txt)
     ELSE TpErr("Invalid `effects` value")

RECURSIVE TpsFrom(_, _, _, _)
TpsFrom(ls, i, ver, acc) ==
  IF i > Len(ls) THEN Ok(acc)
  ELSE IF IsBlankText(ls[i]) THEN TpsFrom(ls, i + 1, ver, acc)
  ELSE LET t == ParseTp(ls[i], ver)
       IN IF t.ok THEN TpsFrom(ls, i + 1, ver, Append(acc, t)) ELSE ErrR(i - 1, t.msg)
ParseTimingPoints(s, ver) == TpsFrom(Lines(s), 1, ver, <<>>)

\* effects may only be left out where they can be read without (up to version 5)
TpText(t, ver) ==
  OutTime(t.time, ver) \o "," \o DecText(t.beat)
  \o (IF ver > 3 THEN "," \o t.meter \o "," \o t.sset \o "," \o t.sidx ELSE "")
  \o (IF ver > 4 THEN "," \o t.vol
                      \o (IF t.unin # "" THEN "," \o t.unin ELSE IF t.eff # "" THEN ",1" ELSE "")
                      \o (IF t.eff # "" THEN "," \o t.eff
                          ELSE IF t.unin # "" /\ ver > 5 THEN ",0" ELSE "")
      ELSE "")
PrintTimingPoints(ts, ver) == Join(MapSeq(ts, LAMBDA t : TpText(t, ver)), "\n")

\* (digits n) / (digits d), whole part, by long division
RECURSIVE DivNat(_, _, _, _), TakeOut(_, _, _), DivLong(_, _, _, _, _)
DivNat(n, d, i, st) ==            \* st = <<quotient digits, remainder>>, for d up to 8 digits
  IF i > Len(n) THEN st[1]
  ELSE LET r == st[2] * 10 + DigVal[At(n, i)]
       IN DivNat(n, d, i + 1, <<st[1] \o DigOf[(r \div d) + 1], r % d>>)
TakeOut(r, d, k) == IF NatLess(r, d) THEN <<k, r>> ELSE TakeOut(NatSub(r, d), d, k + 1)
DivLong(n, d, i, q, r) ==
  IF i > Len(n) THEN q
  ELSE LET t == TakeOut(StripZeros(r \o At(n, i)), d, 0)
       IN DivLong(n, d, i + 1, q \o DigOf[t[1] + 1], t[2])
Quotient(n, d) == StripZeros(IF Len(d) <= 8 THEN DivNat(n, NatVal(d, 1, 0), 1, <<"", 0>>) ELSE DivLong(n, d, 1, "", "0"))
RECURSIVE NoEndZeros(_)
NoEndZeros(s) == IF s # "" /\ At(s, Len(s)) = "0" THEN NoEndZeros(Upto(s, Len(s) - 1)) ELSE s
\* num / d to twenty significant digits and at most 24 decimals ("-": out of range)
RECURSIVE LeadingZeros(_, _)
LeadingZeros(s, i) == IF i > Len(s) \/ At(s, i) # "0" THEN i - 1 ELSE LeadingZeros(s, i + 1)
Least(a, b) == IF a < b THEN a ELSE b
Ratio(num, neg, d) ==
  LET q == PadLeft(Quotient(num \o Repeat("0", d.sc + 26), d.co), 27)
      w == StripZeros(Upto(q, Len(q) - 26))
      k == IF w = "0" THEN Least(24, LeadingZeros(From(q, Len(q) - 25), 1) + 20) ELSE Least(24, IF Len(w) > 20 THEN 0 ELSE 20 - Len(w))
      \* half of the last digit is added, the rest cut off
      r == PadLeft(NatAdd(q, "5" \o Repeat("0", 25 - k)), 27)
      u == StripZeros(Upto(r, Len(r) - 26))
      g == NoEndZeros(Sub(r, Len(r) - 25, Len(r) - 26 + k))
      t == IF Len(w) > 20 THEN Upto(w, 20) \o ".." \o ToString(Len(w)) ELSE u \o (IF g = "" THEN "" ELSE "." \o g)
  IN IF ~NatLeq(w, CoMax) THEN "-" ELSE (IF neg /\ t # "0" THEN "-" ELSE "") \o t
\* beats per minute of an uninherited point, slider velocity of an inherited one
Bpm(t) == IF t.unin # "1" \/ ~t.beat.num \/ DecIsZero(t.beat) THEN "-" ELSE Ratio("60000", t.beat.neg, t.beat)
Velo(t) == IF t.unin # "0" \/ ~t.beat.num \/ DecIsZero(t.beat) THEN "-" ELSE Ratio("100", ~t.beat.neg, t.beat)

\* low four bits of a natural number text
Low4(t) == NatVal(IF Len(t) > 4 THEN From(t, Len(t) - 3) ELSE t, 1, 0) % 16
YN(b) == IF b THEN "y" ELSE "n"
TpObs(t) ==
  Join(<<DecText(t.time), t.meter, t.sset, t.sidx, t.vol, YN(t.unin # "0"),
         IF t.eff = "" THEN "-" ELSE t.eff,
         IF t.eff = "" THEN "-" ELSE YN(Bit(Low4(t.eff), 0) = 1) \o YN(Bit(Low4(t.eff), 3) = 1),
         Bpm(t), Velo(t)>>, "|")
ObsTimingPoints(ts) == Join(MapSeq(ts, TpObs), "\n")
=============================================================================
