------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* What a user of the crate does with whole sections and files: set and    *)
(* clear keys, replace and drop sections, change the version of a file,    *)
(* append a storyboard, write the file and read it again.                  *)
(* The calls of these two kinds of value, for the machine Api.             *)
(***************************************************************************)
EXTENDS Vectors

O(op, a) == [op |-> op, a |-> a]
Res(x, r) == [v |-> x, r |-> r]
Fail(x, m) == [v |-> x, r |-> "!" \o m]
Nil == "nil"
Ops(op, args) == {O(op, a) : a \in args}
One(S) == {<<x>> : x \in S}
Two(S, T) == {<<x, y>> : x \in S, y \in T}
\* sequences of at most n elements of S
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}


(* --------------------- sections of keys and values ---------------------- *)
\* value: the section, as in KeyValue; a key is set to what its line gives when it is read at version a[3]
KvSetTexts(kind) ==
  CASE kind \in {"str", "hash", "tags"} -> {"a:b  c", ""}
    [] kind \in {"int", "curtime"} -> {"-7"}
    [] kind \in {"dec", "olddec"} -> {"1.50", "x"}
    [] kind = "bool" -> {"1", "0"}
    [] kind \in {"list", "oldlist"} -> {"3,-1", ""}
    [] kind = "countdown" -> {"2"}
    [] kind = "mode" -> {"1", "3"}
    [] kind = "sampleset" -> {"Soft"}
    [] OTHER -> {"Below"}
KvParses == [General |-> {<<"AudioFilename: a b.mp3\nAudioHash: h\nMode: 2\nEditorBookmarks: 1,2\nCountdown: 1", "14">>, <<"SampleSet: Soft\nMode: 3", "4">>},
             Editor |-> {<<"Bookmarks: 1,2\nCurrentTime: 5\nTimelineZoom: 1.0", "10">>},
             Metadata |-> {<<"Title:a\nTags:x y\nBeatmapID:1\nBeatmapSetID:-1", "14">>, <<"Title:a\nTitle:b", "14">>},
             Difficulty |-> {<<"HPDrainRate:5\nSliderTickRate:1.0\nApproachRate:x", "9">>}]
KvCtors(sec) == {O("new", <<>>)} \cup Ops("parse", KvParses[sec])
KvEdits(sec) == UNION {{O("set", <<KVFields[sec][i].key, x, w>>) : x \in KvSetTexts(KVFields[sec][i].kind),
                                                                 w \in IF KVFields[sec][i].kind \in {"countdown", "mode", "sampleset", "overlay"} THEN {"4", "14"} ELSE {"14"}}
                         : i \in 1..Len(KVFields[sec])}
                \cup {O("clear", <<KVFields[sec][i].key>>) : i \in 1..Len(KVFields[sec])}
KvDo(sec, x, o) ==
  CASE o.op = "new" -> Res(EmptyKV(sec), "")
    [] o.op = "parse" -> LET r == ParseKV(sec, o.a[1], IntVal(o.a[2])) IN IF r.st = "ok" THEN Res(r.v, "") ELSE Fail(Nil, r.msg)
    [] o.op = "clear" -> Res([x EXCEPT ![FieldIndex(sec, o.a[1])] = Absent], "")
    [] o.op = "set" -> LET i == FieldIndex(sec, o.a[1])
                       IN Res([x EXCEPT ![i] = ParseField(KVFields[sec][i].kind, o.a[2], IntVal(o.a[3])).v], "")
KvShown == <<3, 5, 6, 10, 14>>
KvObsAll(sec, x) == Join(<<ObsKV(sec, x)>> \o MapSeq(KvShown, LAMBDA w : PrintKV(sec, x, w)), "\n=\n")
\* what is written is read back: exactly the keys that this version has, each with its value
KvInv(sec, x) ==
  \A w \in {3, 5, 10, 14} :
    LET r == ParseKV(sec, PrintKV(sec, x, w), w)
    IN /\ r.st = "ok"
       /\ \A i \in 1..Len(x) : r.v[i] = IF x[i].p /\ Written(KVFields[sec][i].kind, x[i].t, w) THEN x[i] ELSE Absent
\* no other key is touched
KvStep(sec, x, o, y) == \A i \in 1..Len(x) : KVFields[sec][i].key # o.a[1] => y[i] = x[i]

(* --------------------------------- files -------------------------------- *)
\* value: version, sections as in Document, storyboard
SpriteText == "Sprite,Pass,Centre,\"a.png\",320,240"
OldDoc == "osu file format v4\n\n[General]\nAudioFilename: a.mp3\nAudioHash: h\nEditorBookmarks: 1,2\n\n[TimingPoints]\n24,500\n\n[HitObjects]\n1,2,30,1,0\n1,2,30,2,0,B|1:2|3:4,1,100\n"
NewDoc == "osu file format v14\n\n[Metadata]\nTitle:a\n\n[Events]\n" \o SpriteText \o "\n F,0,1,2,1\n\n[Colours]\nCombo1 : 1,2,3\n\n[HitObjects]\n1,2,3,1,0,0:0:0:0:\n"
FiDocs == {OldDoc, NewDoc, "osu file format v5", "osu file format v14\n[Bogus]"}
FiSets == {<<"General", "Mode: 1\nAudioHash: h">>, <<"Editor", "CurrentTime: 3\nGridSize: 4">>, <<"Metadata", "Title:x: y">>, <<"Difficulty", "">>,
           <<"Events", "//c\n0,24,\"b.png\",1,2">>, <<"TimingPoints", "24,500,4,1,0,100,1,8">>, <<"Colours", "Combo2 : 4,5,6">>, <<"HitObjects", "1,2,3,12,0,40">>}
FiOsbs == {"[Variables]\n$a=1,2\n\n[Events]\n" \o SpriteText \o "\n F,0,$a,1", "[Events]\n//x", "[Variables]\na=1", "[General]", ""}
FiCtors == Ops("new", One({"3", "14"})) \cup Ops("parse", One(FiDocs))
FiEdits == Ops("version", One({"3", "4", "5", "8", "13", "14"})) \cup {O("set", s \o <<w>>) : s \in FiSets, w \in {"4", "14"}}
             \cup {O("drop", <<SectionNames[i]>>) : i \in 1..8} \cup Ops("append", One(FiOsbs)) \cup {O("reload", <<>>), O("reloadosb", <<>>), O("droposb", <<>>)}
NewFile(w) == [ver |-> w, secs |-> NoSections, osb |-> NoneR]
FiDoc(x) == [ver |-> x.ver, secs |-> x.secs]
FiAppend(x, t) == LET r == ParseOsb(t, x.ver)
                  IN IF r.st = "err" THEN Fail(x, r.msg) ELSE Res([x EXCEPT !.osb = r], "")
FiOsbText(x) == IF x.osb.st = "ok" /\ OsbExists(x.ver) THEN PrintOsb(x.osb.v, x.ver) ELSE "-"
FiDo(x, o) ==
  CASE o.op = "new" -> Res(NewFile(IntVal(o.a[1])), "")
    [] o.op = "parse" -> LET r == ParseDoc(o.a[1]) IN IF r.st = "ok" THEN Res([ver |-> r.v.ver, secs |-> r.v.secs, osb |-> NoneR], "") ELSE Fail(Nil, r.msg)
    [] o.op = "version" -> Res([x EXCEPT !.ver = IntVal(o.a[1])], "")
    [] o.op = "set" -> LET r == ParseSection(o.a[1], o.a[2], IntVal(o.a[3]))
                       IN IF r.st = "err" THEN Fail(x, r.msg) ELSE Res([x EXCEPT !.secs[o.a[1]] = r], "")
    [] o.op = "drop" -> Res([x EXCEPT !.secs[o.a[1]] = NoneR], "")
    [] o.op = "droposb" -> Res([x EXCEPT !.osb = NoneR], "")
    [] o.op = "append" -> FiAppend(x, o.a[1])
    [] o.op = "reload" -> LET r == ParseDoc(PrintDoc(FiDoc(x), x.ver)) IN IF r.st = "ok" THEN Res([x EXCEPT !.ver = r.v.ver, !.secs = r.v.secs], "") ELSE Fail(x, r.msg)
    [] o.op = "reloadosb" -> IF FiOsbText(x) = "-" THEN Res(x, "none") ELSE FiAppend(x, FiOsbText(x))
FiObs(x) == Join(<<ObsDoc(FiDoc(x)), IF x.osb.st = "ok" THEN ObsOsb(x.osb.v) ELSE "no osb", PrintDoc(FiDoc(x), x.ver), FiOsbText(x)>>, "\n=\n")
\* every file can be written and read; what is read back is written the same
FiInv(x) == LET t == PrintDoc(FiDoc(x), x.ver)
                r == ParseDoc(t)
            IN r.st = "ok" /\ r.v.ver = x.ver /\ PrintDoc(r.v, x.ver) = t
FiStep(x, o, y) ==
  /\ o.op \in {"version", "append", "droposb", "reloadosb"} => y.secs = x.secs
  /\ o.op \in {"version", "set", "drop", "reload"} => y.osb = x.osb
  /\ o.op # "version" => y.ver = x.ver
  /\ o.op \in {"set", "drop"} => \A n \in DOMAIN x.secs : n # o.a[1] => y.secs[n] = x.secs[n]
  /\ o.op \in {"reload", "reloadosb"} => FiOsbText(y) = FiOsbText(x) /\ PrintDoc(FiDoc(y), y.ver) = PrintDoc(FiDoc(x), x.ver)
=============================================================================
