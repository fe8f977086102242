------------------------------ MODULE KeyValue ------------------------------
(***************************************************************************)
(* The four `key: value` sections: General, Editor, Metadata, Difficulty.  *)
(* A section text is a list of fields; each key may occur once, its value  *)
(* runs to the end of the line, and every key has a kind that says which   *)
(* values are allowed and what is printed back.                            *)
(***************************************************************************)
EXTENDS Num

Versions == 3..14

Ok(v)         == [st |-> "ok", v |-> v]
NoneR         == [st |-> "none"]
ErrR(l, m)    == [st |-> "err", line |-> l, msg |-> m]

(* ------------------------------- tables -------------------------------- *)
Fd(k, t) == [key |-> k, kind |-> t]
KVFields ==
  [General |-> <<
     Fd("AudioFilename", "str"), Fd("AudioLeadIn", "int"), Fd("AudioHash", "hash"),
     Fd("PreviewTime", "int"), Fd("Countdown", "countdown"), Fd("SampleSet", "sampleset"),
     Fd("StackLeniency", "dec"), Fd("Mode", "mode"), Fd("LetterboxInBreaks", "bool"),
     Fd("StoryFireInFront", "bool"), Fd("UseSkinSprites", "bool"), Fd("AlwaysShowPlayfield", "bool"),
     Fd("OverlayPosition", "overlay"), Fd("SkinPreference", "str"), Fd("EpilepsyWarning", "bool"),
     Fd("CountdownOffset", "int"), Fd("SpecialStyle", "bool"), Fd("WidescreenStoryboard", "bool"),
     Fd("SamplesMatchPlaybackRate", "bool"), Fd("EditorBookmarks", "oldlist"),
     Fd("EditorDistanceSpacing", "olddec") >>,
   Editor |-> <<
     Fd("Bookmarks", "list"), Fd("DistanceSpacing", "dec"), Fd("BeatDivisor", "dec"),
     Fd("GridSize", "int"), Fd("TimelineZoom", "dec"), Fd("CurrentTime", "curtime") >>,
   Metadata |-> <<
     Fd("Title", "str"), Fd("TitleUnicode", "str"), Fd("Artist", "str"), Fd("ArtistUnicode", "str"),
     Fd("Creator", "str"), Fd("Version", "str"), Fd("Source", "str"), Fd("Tags", "tags"),
     Fd("BeatmapID", "int"), Fd("BeatmapSetID", "int") >>,
   Difficulty |-> <<
     Fd("HPDrainRate", "dec"), Fd("CircleSize", "dec"), Fd("OverallDifficulty", "dec"),
     Fd("ApproachRate", "dec"), Fd("SliderMultiplier", "dec"), Fd("SliderTickRate", "dec") >> ]
KVSections == DOMAIN KVFields

InvalidKeyMsg == [General |-> "The key doesn't exist in `General`",
                  Editor |-> "The key doesn't exist in `Editor`",
                  Metadata |-> "The key doesn't exist in `Metadata`",
                  Difficulty |-> "The key doesn't exist in `Difficulty`"]
DuplicateMsg  == [General |-> "Duplicate field were found in `General`",
                  Editor |-> "Duplicate field in `Editor`",
                  Metadata |-> "There is a duplicate field in the `Metadata` section",
                  Difficulty |-> "Duplicate field in `Difficulty`"]
ColonMsg      == "Invalid colon set, expected format of `key: value`"
CommaListMsg  == "Invalid comma list, expected format of `key: value, value, value, ...`"
BoolMsg       == "Error parsing value as `true` or `false`, expected value of 0 or 1"

\* text between the colon and the value
Spacing(sec) ==
  IF sec \in {"General", "Editor"} THEN " " ELSE ""

(* ------------------------------- values -------------------------------- *)
(* A field value is [p |-> present, t |-> printed text].                    *)
Absent   == [p |-> FALSE, t |-> ""]
Have(t)  == [p |-> TRUE, t |-> t]
FOk(x)   == [ok |-> TRUE, v |-> x, msg |-> ""]
FErr(m)  == [ok |-> FALSE, v |-> Absent, msg |-> m]

FInt(s) == LET r == ParseInt(s, "i32") IN IF r.ok THEN FOk(Have(r.txt)) ELSE FErr(r.msg)
FBool(s) == LET r == ParseInt(s, "i32")
            IN IF ~r.ok THEN FErr(r.msg)
               ELSE IF r.txt \in {"0", "1"} THEN FOk(Have(r.txt)) ELSE FErr(BoolMsg)

RECURSIVE ListFrom(_, _, _)
ListFrom(q, i, acc) ==
  IF i > Len(q) THEN FOk(Have(Join(acc, ",")))
  ELSE LET r == ParseInt(q[i], "i32")
       IN IF r.ok THEN ListFrom(q, i + 1, Append(acc, r.txt))
          ELSE FErr(IF q[i] = "" THEN CommaListMsg ELSE r.msg)
FList(s) == IF s = "" THEN FOk(Have("")) ELSE ListFrom(Split(s, ","), 1, <<>>)

FCountdown(s, ver) ==
  IF ver <= 4 THEN FOk(Absent)
  ELSE LET r == ParseInt(s, "usize")
       IN IF ~r.ok THEN FErr("There was a problem parsing the `str` as an `Integer`")
          ELSE IF r.txt \in {"0", "1", "2", "3"} THEN FOk(Have(r.txt))
          ELSE FErr("Unknown `CountdownSpeed` variant")

FSampleSet(s, ver) ==
  IF ver = 3 THEN FOk(Absent)
  ELSE IF s \in {"Normal", "Soft", "Drum", "None"} THEN FOk(Have(s))
  ELSE FErr("Unknown `SampleSet` variant")

ModeSince == [osu |-> 3, taiko |-> 5, catch |-> 7, mania |-> 10]
ModeOf == [c \in {"0", "1", "2", "3"} |-> CASE c = "0" -> ModeSince.osu [] c = "1" -> ModeSince.taiko
                                             [] c = "2" -> ModeSince.catch [] c = "3" -> ModeSince.mania]
FMode(s, ver) ==
  LET r == ParseInt(s, "usize")
  IN IF ~r.ok THEN FErr(r.msg)
     ELSE CASE r.txt = "0" -> FOk(Have("0"))
            [] r.txt = "1" -> FOk(IF ver >= ModeSince.taiko THEN Have("1") ELSE Absent)
            [] r.txt = "2" -> FOk(IF ver >= ModeSince.catch THEN Have("2") ELSE Absent)
            [] r.txt = "3" -> FOk(IF ver >= ModeSince.mania THEN Have("3") ELSE Absent)
            [] OTHER -> FErr("Unknown `GameMode` variant")

FOverlay(s, ver) ==
  IF ver <= 13 THEN FOk(Absent)
  ELSE IF s \in {"NoChange", "Below", "Above"} THEN FOk(Have(s))
  ELSE FErr("Unknown `OverlayPosition` variant")

ParseField(kind, s, ver) ==
  CASE kind \in {"str", "hash", "tags"}  -> FOk(Have(s))
    [] kind \in {"int", "curtime"} -> FInt(s)
    [] kind \in {"dec", "olddec"}  -> FOk(Have(CanonDec(s)))
    [] kind = "bool"  -> FBool(s)
    [] kind \in {"list", "oldlist"} -> FList(s)
    [] kind = "countdown" -> FCountdown(s, ver)
    [] kind = "sampleset" -> FSampleSet(s, ver)
    [] kind = "mode" -> FMode(s, ver)
    [] kind = "overlay" -> FOverlay(s, ver)

\* is a field of this kind with this text written to a file of this version?
Written(kind, t, ver) ==
  CASE kind = "mode" -> ver >= ModeOf[t]
    [] kind = "hash" -> ver <= 13
    [] kind \in {"oldlist", "olddec"} -> ver <= 5
    [] kind = "curtime" -> ver = 10
    [] kind = "countdown" -> ver >= 5
    [] kind = "sampleset" -> ver >= 4
    [] kind = "overlay" -> ver >= 14
    [] OTHER -> TRUE

(* ------------------------------- parsing ------------------------------- *)
RECURSIVE KVScan(_, _, _)
KVScan(s, p, acc) ==
  LET e == SkipTo(s, p, {":", "\n"})
  IN IF e > Len(s) \/ At(s, e) # ":" THEN [fields |-> acc, rest |-> From(s, p)]
     ELSE LET vs == SkipIn(s, e + 1, Blank)
              ve == SkipTo(s, vs, {"\r", "\n"})
              we == SkipIn(s, ve, Ws)
          IN KVScan(s, we, Append(acc, [k |-> Sub(s, p, e - 1), v |-> Sub(s, vs, ve - 1),
                                        lf |-> LfCount(Sub(s, ve, we - 1))]))

RECURSIVE SumLf(_, _)
SumLf(fs, i) == IF i > Len(fs) THEN 0 ELSE fs[i].lf + SumLf(fs, i + 1)

FieldIndex(sec, k) == LET c == {i \in 1..Len(KVFields[sec]) : KVFields[sec][i].key = k}
                      IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE

RECURSIVE KVApply(_, _, _, _, _, _, _)
KVApply(sec, ver, fs, i, line, seen, val) ==
  IF i > Len(fs) THEN Ok(val)
  ELSE LET f == fs[i]
           n == FieldIndex(sec, f.k)
       IN IF f.k \in seen THEN ErrR(line, DuplicateMsg[sec])
          ELSE IF n = 0 THEN ErrR(line, InvalidKeyMsg[sec])
          ELSE LET r == ParseField(KVFields[sec][n].kind, f.v, ver)
               IN IF ~r.ok THEN ErrR(line, r.msg)
                  ELSE KVApply(sec, ver, fs, i + 1, line + f.lf, seen \cup {f.k},
                               [val EXCEPT ![n] = r.v])

EmptyKV(sec) == [i \in 1..Len(KVFields[sec]) |-> Absent]

ParseKV(sec, s, ver) ==
  LET sc == KVScan(s, 1, <<>>)
  IN IF ~IsBlankText(sc.rest) THEN ErrR(SumLf(sc.fields, 1), ColonMsg)
     ELSE KVApply(sec, ver, sc.fields, 1, 0, {}, EmptyKV(sec))

(* ------------------------------- printing ------------------------------ *)
PrintKV(sec, val, ver) ==
  LET idx == SelectSeq([i \in 1..Len(val) |-> i],
                       LAMBDA i : val[i].p /\ Written(KVFields[sec][i].kind, val[i].t, ver))
  IN Join([j \in 1..Len(idx) |->
             KVFields[sec][idx[j]].key \o ":" \o Spacing(sec)
               \o val[idx[j]].t], "\n")

\* observation through the public fields: a line Key=text for each present
\* field (tags are a list: its items separated by |)
ObsKV(sec, val) ==
  LET idx == SelectSeq([i \in 1..Len(val) |-> i], LAMBDA i : val[i].p)
  IN Join([j \in 1..Len(idx) |-> KVFields[sec][idx[j]].key \o "="
             \o (IF KVFields[sec][idx[j]].kind = "tags" THEN ReplaceAllText(val[idx[j]].t, " ", "|")
                 ELSE val[idx[j]].t)], "\n")
=============================================================================
