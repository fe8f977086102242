------------------------------ MODULE Alphabets -----------------------------
(***************************************************************************)
(* Tasks for the appending editor.                                         *)
(***************************************************************************)
EXTENDS Compose

Task(k, start, alpha, vs, n) ==
  [k |-> k, start |-> start, alpha |-> alpha, glues |-> {"\n"}, ends |-> {""}, vs |-> vs, n |-> n]
Framed(t, glues, ends) == [t EXCEPT !.glues = glues, !.ends = ends]
HeadV14 == "osu file format v14\n"
SpriteLine == "Sprite,Pass,Centre,\"a.png\",320,240\n"

(* ---------------------- frames of whole documents (C04) ------------------ *)
\* lines above the first section
AboveTask(k, start) == Framed(Task(k, start, <<"  //c]", "//[c", "\t// x ", "x]", "[x", " [x] ", "x", "]", " ", "[Events]", "//d\n0,0,a,1,2">>, {14}, 3), {"\n", "\r\n"}, {"", "\n"})
HeadTask == Framed(Task("doc", "",
  <<"osu file format v14", "osu file format v3", " osu file format v9", "osu file format v15", "osu file format v2",
    "osu file format v", "osu file format v014 ", "osu file format v14x", "OSU file format v14", BOM \o "osu file format v5",
    "osu file format v256", "", " ", "//c", "x", "[General]", "Mode: 0", BOM>>, {14}, 3), {"\n", "\r\n"}, {"", "\n"})
FrameTask == Framed(Task("doc", HeadV14,
  <<"[General]", "[Colours]", "[HitObjects]", "[Bogus]", "[General", "Events]", "[]", "", " \t", "//c", "//[c]",
    "Mode: 1", "Combo1 : 1,2,3", "x", " [Editor] ", "[Metadata]x">>, {14}, 3), {"\n", "\r\n"}, {"", "\n"})
SectionsTask == Task("doc", "osu file format v14",
  <<"\n[General]\nMode: 2", "\n[Editor]\nGridSize: 4\n\n", "\n[Metadata]\nTitle:a:b", "\n[Difficulty]\n\nCircleSize:4\n",
    "\n[Events]\n//x\n0,0,\"a\",0,0\n", "\n[TimingPoints]\n24,500,4,1,0,100,1,0", "\n[Colours]\nCombo1 : 1,2,3\n", "\n[HitObjects]\n1,2,3,1,0,0:0:0:0:",
    "\n[Events]", "\n[HitObjects]\n\n", "\n[General]\n", "\n[Colours]">>, {14}, 3)
SectionsTask4 == [SectionsTask EXCEPT !.start = "osu file format v4", !.n = 3]
SectionsTask11 == [SectionsTask EXCEPT !.start = "osu file format v11", !.n = 2]
DocTasks == <<AboveTask("doc", "osu file format v14\n"), AboveTask("doc", "\t\n\nosu file format v13\n"), HeadTask, FrameTask, Framed(SectionsTask, {"", "\n"}, {"", "\n"}), SectionsTask4, SectionsTask11>>

(* ---------------------- locations of errors (C03) ------------------------ *)
LineTask == Framed(Task("doc", "",
  <<"\n", " \t\n", "osu file format v14\n", "[General]\n", "[Metadata]\n", "Mode: 1\n", "Title:a\n", "Titel:a\n", "Mode: x\n", "//\n">>, {14}, 4),
  {""}, {"", "[TimingPoints]\n1\n"})
LineTask2 == Framed(Task("doc", HeadV14,
  <<"[Events]\n", "[HitObjects]\n", "[TimingPoints]\n", "[Colours]\n", "1,2,3,1,0,0:0:0:0:\n", "//x\n", "\n", "  \n", " F,0,1,2,1\n", "Combo1 : 1,2,300\n", "1,2,4,1,0,100,0,0\n">>,
  {14}, 4), {""}, {"", "x"})
LineTask3 == Framed(Task("doc", "\n//c\n\nosu file format v14\n//d\n\n[General]\n",
  <<"Mode: 1", "", " ", "Title:a", "[Metadata]", "x", "[Editor", "[TimingPoints]", "1,2,4,1,0,100,0,0", " 1">>, {14}, 4), {"\n", "\r\n"}, {"", "\n"})
LineTask4 == Task("osb", "[Variables]\n$a=1\n", <<"\n", "[Events]\n", "x", " F,0,1,2,$a\n", SpriteLine, "//c\n", "[Variables]", "$b=2\n">>, {14}, 4)
LocationTasks == <<LineTask, LineTask2, LineTask3, Framed(LineTask4, {""}, {""})>>

(* ----------------------------- list sections ----------------------------- *)
MetaTask == Framed(Task("Metadata", "",
  <<"Title:a", "Artist: b:c", "Tags:x y  z", "BeatmapID:7", "BeatmapID:x", "Title:a2", "", "  ", "Source:", "Bad", "Other:1", " Creator:me">>, {14}, 3),
  {"\n", "\r\n"}, {"", "\n", "\n\n"})
GeneralTask == Framed(Task("General", "",
  <<"AudioFilename: a.mp3", "Mode: 3", "Countdown: 2", "SampleSet: Drum", "OverlayPosition: Below", "AudioHash: h", "EditorBookmarks: 1,2",
    "EditorDistanceSpacing: 1.5", "LetterboxInBreaks: 1", "Mode: 1">>, {3, 4, 5, 6, 9, 10, 13, 14}, 2), {"\n"}, {""})
ListTask(k, alpha, vs, n) == Framed(Task(k, "", alpha, vs, n), {"\n", "\r\n"}, {"", "\n"})
TpTask == ListTask("TimingPoints",
  <<"1,500,4,1,0,100,1,0", "2,-50,4,2,1,50,0,1", "3,400,3,0,0,70", "", " ", "4,1,4,1,0,100,1,0,9", "x,1", "5,1,4,1,0,100,2,0", " 6,1,4,1,0,100,1,8">>, {4, 5, 6, 14}, 3)
HoTask == ListTask("HitObjects",
  <<"1,2,3,1,0,0:0:0:0:", "1,2,3,5,2", "10,20,300,2,0,B|1:2|3:4,1,100,0|2,0:0|1:1,0:0:0:0:", "10,20,300,6,0,L|5:6,2,50.5", "1,2,30,12,0,40,1:2:3:4:a.wav",
    "1,2,30,128,0,40:1:2:3:4:", "1,2,30,7,0,1", "", "  ", "1,2,3,0,0,0:0:0:0:", "1,2,3,1">>, {3, 9, 11, 14}, 3)
ColTask == ListTask("Colours", <<"Combo1 : 1,2,3", "Combo2:4,5,6", "SliderBorder : 7,8,9", "SliderTrackOverride : 1,1,1", "", " ", "Combo1 : 1,2", "Combo : 1,2,3", " Combo3 : 0,0,0">>, {4, 5, 14}, 3)
\* keys alone and in pairs, in every order, in every version of the format
KindDefault(kind) ==
  CASE kind \in {"str", "hash", "tags"} -> "a b"
    [] kind \in {"int", "curtime"} -> "7"
    [] kind \in {"dec", "olddec"} -> "0.5"
    [] kind = "bool" -> "1"
    [] kind \in {"list", "oldlist"} -> "1,2"
    [] kind \in {"countdown", "mode"} -> "2"
    [] kind = "sampleset" -> "Soft"
    [] OTHER -> "Below"
KeysTask(sec) == Task(sec, "", [i \in 1..Len(KVFields[sec]) |-> KVFields[sec][i].key \o ": " \o KindDefault(KVFields[sec][i].kind)], 3..14, 2)
KeyTasks == <<KeysTask("General"), KeysTask("Editor"), KeysTask("Metadata"), KeysTask("Difficulty")>>
ListTasks == <<MetaTask, GeneralTask, TpTask, HoTask, ColTask>>

(* --------------------- events and their commands (C10) ------------------- *)
TreeTask == Task("Events", "",
  <<"Sprite,Pass,Centre,\"a.png\",320,240", "0,0,\"b.png\",0,0", "//c", " F,0,1,2,1", "  F,0,1,2,0", "   S,0,1,2,2", " L,5,2", "  T,Passing,1,2", "   L,6,3", "    P,0,1,,H", "_M,0,1,2,3,4", "", "R,0,1,2,3">>,
  {14}, 4)
TreeTask3 == [TreeTask EXCEPT !.vs = {3}, !.n = 3]
DeepTask == Task("Events", SpriteLine, <<" L,5,2", "  L,6,3", "   T,HitSound,1,2", "    L,7,4", "     C,0,1,2,3,4,5", "  F,0,1,2,1", " _V,0,1,2,1,2", " MX,0,,,3">>, {14}, 5)
CommandTask == Task("Events", SpriteLine \o " L,1,2\n", <<"  F,0,1,2,1", "  F,0,1,2,1,2,3", "  M,0,1,2,1,2,3", "  V,0,1,,1,2,3,4,5", "  C,0,1,2,3,4,5,6", "  C,0,1,2,3,4,5,6,7", "  P,0,1,2,H,V", " T,HitSoundSoftClap3,,,7", " T,Failing", " L,9,8", "  F,0,1">>, {14, 9}, 2)
NestTask == Task("Events", SpriteLine \o " L,5,2\n  L,6,3\n   T,HitSound,1,2\n    L,8,4\n     F,0,1,2,1\n",
  <<" F,0,1,2,0", "  S,0,1,2,2", "   R,0,1,2,3", "    V,0,1,2,1,2", "     P,0,1,,H", "      F,0,3,4,1", " L,9,1", "  T,Failing", "   L,9,3", "    L,9,4">>, {14, 5}, 4)
KindsTask == Framed(Task("Events", "",
  <<"0,0,\"b.png\",0,0", "Video,5,v.avi", "1,6,\"v.avi\",1,2", "2,7,8", "Break,9,10", "3,11,1,2,3", "4,3,1,s.png", "5,3,1,a.png,2,3", "6,12,1,s.wav,40", "Sample,13,2,\"s.wav\",50",
    "Sprite,Fail,TopLeft,\"s p.png\",1,2", "Animation,Overlay,Custom,\"an.png\",1,2,3,4,LoopOnce", "// note ", "//", " F,0,1,2,1", "Unknown,1", "">>, {3, 4, 5, 14}, 2), {"\n", "\r\n"}, {"", "\n"})
\* commands below every kind of event, and a second event after them
HostTask == Task("Events", "",
  <<"0,0,\"b.png\",0,0", "Background,0,b.png", "Video,5,v.avi", "1,6,\"v.avi\",1,2", "2,7,8", "3,11,1,2,3", "4,3,1,s.png", "5,3,1,a.png,2,3", "6,12,1,s.wav,40", "Sample,13,2,\"s.wav\",50",
    "Sprite,Fail,TopLeft,\"s p.png\",1,2", "Animation,Overlay,Custom,\"an.png\",1,2,3,4,LoopOnce", "//c",
    " F,0,1,2,1", "  S,0,1,2,1", " L,1,2", "_T,Failing", "   F,0,1,2", " F,0,x">>, {3, 14}, 4)
\* stairs: loops and triggers nested n levels deep, and on the way back a command (or
\* another loop with a command) at the levels of a mask
RECURSIVE StairUp(_, _, _)
StairUp(k, mask, kind) ==
  IF k = 0 THEN ""
  ELSE LET p == Repeat(" ", k)
       IN (IF (mask \div (2 ^ (k - 1))) % 2 = 0 THEN ""
           ELSE IF kind = 0 THEN "\n" \o p \o "S,0," \o ToString(k) \o ",,2"
           ELSE "\n" \o p \o "L,7," \o ToString(k) \o "\n" \o p \o " R,0,1," \o ToString(k) \o ",3")
          \o StairUp(k - 1, mask, kind)
Stair(n, mask, kind) ==
  Join([i \in 1..n |-> Repeat(" ", i) \o (IF i % 3 = 2 THEN "T,Failing," \o ToString(i) \o ",9" ELSE "L,5," \o ToString(i))], "\n")
    \o "\n" \o Repeat(" ", n + 1) \o "F,0,1,2,1" \o StairUp(n, mask, kind)
Stairs(lo, hi) == [j \in 1..(2 ^ (hi + 2) - 2 ^ (lo + 1)) |->
                        \* 2^(n+1) numbers for each depth n: a mask of n bits and a kind
                        LET i == j + 2 ^ (lo + 1) - 1
                            n == CHOOSE n \in lo..hi : 2 ^ (n + 1) <= i /\ i < 2 ^ (n + 2)
                            r == i - 2 ^ (n + 1)
                        IN Stair(n, r \div 2, r % 2)]
StairTask == Task("Events", SpriteLine, Stairs(2, 6), {14}, 2)
TreeTasks == <<StairTask, TreeTask, TreeTask3, DeepTask, NestTask, CommandTask, KindsTask, HostTask>>

(* ----------------------- storyboard files (C12) -------------------------- *)
OsbFrameTask == Framed(Task("osb", "",
  <<"[Variables]", "[Events]", "[General]", "$a=1", "$ab=2", "$=x", "$a", "a=1", "//c", "", "Sprite,Pass,Centre,\"$a\",320,240", " F,0,$a,$ab,$a", "x">>, {14}, 4), {"\n"}, {""})
OsbOddTask == Framed(Task("osb", "[Variables]\n$a=1\n",
  <<"  // x]", "[Events", "Events]", "[Events]", "[Variables]]", " [Events] ", "[Events] //c", "[x", "$b=]", "$[=2", SpriteLine \o "//c]", " F,0,[1],2,3", "\t">>, {14}, 3), {"\n"}, {"", "\n"})
OsbEndsTask == Framed([OsbFrameTask EXCEPT !.n = 3, !.vs = {13, 14}], {"\n", "\r\n"}, {"", "\n"})
OsbVarTask == Task("osb", "[Variables]\n$x=10\n",
  <<"$a=1", "$ab=20", "$b=1,2", "$c=", "$d=0,10", "$x=11", "$e=$a", "[Events]\n" \o SpriteLine \o " F,0,1,2,$a", " M,0,$b,$x,$ab", " F,$d,20,1", " C,0,1,2,$ab,$x,10", " F,0,10,11,1,20"  >>, {14}, 4)
\* references where no value stands
OsbNameTask == Task("osb", "[Variables]\n$c=F\n$i= \n$k=,\n$n=\n$q=Sprite\n$s=0,1,2\n$t=HitSound\n[Events]\n" \o SpriteLine,
  <<" $c,0,1,2,$c", " $c,0,1,2,1", "$i$c,0,1,2,1", " F$k0,1,2,1", " F,0,1,2$n,1", "$q,Pass,Centre,a.png,1,2", " F,$s,1", "$iF,0,1,2$k1", " T,$t,1,2", " T,$tSoft,1,2", " L,1,$s", "  M,$s,1$k2", "//$c", "0,0,$q,0,0", " F,0,1,2,$x">>, {14, 13}, 2)
\* more variables than the commands use, of which some have names that begin with others'
OsbManyTask == Task("osb", "[Variables]\n$p=91\n$q=92\n$a=1\n$r=93\n$ab=20\n$s=94\n$abc=300\n$t=9\n[Events]\n" \o SpriteLine,
  <<" F,0,5,6,20", " F,0,5,6,$ab", " F,0,300,$abc,7", " M,0,1,20,300,94,9,1", " M,0,$a,$p$q,$t,$s,$r,$abc", " C,0,91,92,93,94,20,1", " L,300,20", " T,Failing,20,94", "  F,0,20,93,$ab">>, {14}, 3)
OsbTasks == <<OsbManyTask, AboveTask("osb", ""), AboveTask("osb", "\n\t\n"), OsbFrameTask, OsbOddTask, OsbNameTask, OsbEndsTask, OsbVarTask>>

(* ------------------------- characters of one line ------------------------ *)
Chars(k, start, alpha, vs, n) == Framed(Task(k, start, alpha, vs, n), {""}, {""})
CharTasks == <<
  Chars("Events", SpriteLine, <<" ", "_", "F", "M", "X", ",", "1", "-", "\n">>, {14}, 6),
  Chars("Events", SpriteLine \o " T,", <<"HitSound", "Soft", "All", "Clap", "1", "2", ",", "S", " ">>, {14}, 5),
  Chars("Events", "", <<"0", "1", "2", "6", ",", "\"", "a", " ", "/", "Sample", "Sprite", "Break">>, {3, 14}, 5),
  Chars("HitObjects", "1,2,3,2,0,", <<"B", "|", ":", "1", ",", "x", "-">>, {14, 9}, 6),
  Chars("HitObjects", "1,2,3,1,0,", <<":", "1", "0", "a", " ", ",", "9">>, {14, 11, 9}, 6),
  Chars("TimingPoints", "", <<"1", ",", "-", ".", "0", " ", "\n">>, {3, 14}, 6),
  Chars("Colours", "", <<"Combo", "1", ":", ",", " ", "SliderBorder", "2", "\n">>, {14}, 6),
  Chars("Metadata", "", <<"Title", ":", " ", "a", "\n", "\r", "\t", "//">>, {14}, 6),
  Chars("Editor", "", <<"GridSize", "Bookmarks", ":", " ", "1", ",", "\n", "-">>, {14}, 5),
  Chars("doc", HeadV14, <<"[", "]", "General", "\n", " ", "Mode:0", "/", "\r">>, {14}, 6),
  Chars("doc", "", <<BOM, "osu file format v", "1", "4", "\n", " ", "[General]", "-", "+">>, {14}, 5),
  Chars("osb", "[Variables]\n", <<"$", "a", "=", "1", "\n", "[Events]\n" \o SpriteLine, " F,0,", ",", "$a">>, {14}, 6) >>

TriggerTasks == << Chars("Events", SpriteLine \o " T,",
  <<"HitSound", "All", "Normal", "Soft", "Drum", "Whistle", "Finish", "Clap", "0", "12", "Passing", "Failing">>, {14}, 5) >>

(* ---- long runs over few lines: what a line means does not depend on the lines above it ---- *)
Run(k, start, alpha, vs) == Task(k, start, alpha, vs, 7)
RunTpTasks == << Run("TimingPoints", "", <<"5,500,4,1,0,100,1,0", "5,-50,3,2,1,60,0,1", "5,-100,4,1,0,100,0,0", "9,300,3,1,0,5,1,8">>, {14}) >>
RunHoTasks == << Run("HitObjects", "", <<"1,2,3,1,0,0:0:0:0:", "1,2,3,12,0,9,0:0:0:0:", "1,2,3,2,0,L|5:6,1,100", "1,2,4,128,2,9:0:0:0:0:">>, {14}),
                 [Run("HitObjects", "", <<"1,2,3,5,0", "1,2,3,38,8,B|5:6|5:6,2,100,2|0|2,0:0|1:1|2:2,0:0:0:0:", "3,2,3,1,0">>, {9, 14}) EXCEPT !.n = 6] >>
RunColTasks == << Run("Colours", "", <<"Combo1 : 1,2,3", "Combo2 : 1,2,3", "SliderBorder : 1,2,3", "SliderTrackOverride : 4,5,6">>, {14}) >>
RunEvTasks == << Run("Events", "", <<"2,1,2", "0,0,a", "Video,3,v", "Sprite,Fail,Centre,s,0,0\n F,0,1,2,1">>, {14}),
                 [Run("Events", "", <<"//c", "Sample,1,0,s,5", "3,1,2,3,4", "Animation,Pass,Centre,a,0,0,1,2">>, {14}) EXCEPT !.n = 6],
                 [Run("Events", "", <<"4,3,1,s.png", "5,3,1,a.png,2,3", "6,12,1,s.wav,40", "0,0,a,1,2", " L,1,2\n  F,0,1,2,1">>, {3}) EXCEPT !.n = 6] >>
RunCmdTasks == << Run("Events", SpriteLine, <<" F,0,1,2,1", " L,1,2", "  F,0,1,2,1", " T,Failing,1,2">>, {14}),
                  [Run("Events", SpriteLine, <<" M,0,1,2,3,4", " P,0,1,2,H", " C,0,1,,4,5,6", " V,0,1,2,3,4,5">>, {14}) EXCEPT !.n = 6] >>

(* ------ files with all eight sections: which are empty, which are missing, in which order ------ *)
AllNames == <<"General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects">>
SectionBodies == <<"Mode: 1\n", "GridSize: 4\n", "Title:a\n", "HPDrainRate:5\n", "0,0,\"b\",0,0\n", "1,500,4,2,1,70,1,0\n", "Combo1 : 1,2,3\n", "1,2,3,1,0,0:0:0:0:\n">>
Masked(mask, i) == (mask \div (2 ^ (i - 1))) % 2 = 1
AllHead(i) == "[" \o AllNames[i] \o "]\n"
AllSections(order, empty, gone, gap) ==
  HeadV14 \o Join([j \in 1..8 |-> LET i == order[j] IN IF Masked(gone, i) THEN "" ELSE gap \o AllHead(i) \o (IF Masked(empty, i) THEN "" ELSE SectionBodies[i])], "")
InOrder == [i \in 1..8 |-> i]
Turned(k) == [i \in 1..8 |-> ((i + k - 1) % 8) + 1]
Mirrored(k) == [i \in 1..8 |-> ((16 - i + k) % 8) + 1]
FullAlphabet == [m \in 1..256 |-> AllSections(InOrder, m - 1, 0, "")] \o [m \in 1..256 |-> AllSections(InOrder, 0, m - 1, "\n")]
                  \o [k \in 1..8 |-> AllSections(Turned(k), 0, 0, "")] \o [k \in 1..8 |-> AllSections(Mirrored(k), 16, 0, "\n\n")]
                  \o [m \in 1..64 |-> AllSections(Turned(m), (m * 37) % 256, (m * 11) % 256, " \n")]
\* what follows all of them: each section again, unknown and unclosed ones
FullEnds == {AllHead(i) : i \in 1..8} \cup {"\n" \o AllHead(i) \o SectionBodies[i] : i \in 1..8} \cup {"[Bogus]", "[HitObjects", "x", "1,2,3", "[Variables]\n$a=1"}
FullTasks == << Framed(Task("doc", "", FullAlphabet, {14}, 1), {""}, {""}),
                Framed(Task("doc", "", [k \in 1..8 |-> AllSections(Turned(k), 0, 0, "")] \o [k \in 1..8 |-> AllSections(InOrder, 2 ^ (k - 1), 0, "\n")], {14}, 1), {""}, FullEnds) >>

AllTasks == DocTasks \o LocationTasks \o ListTasks \o TreeTasks \o OsbTasks \o CharTasks
=============================================================================
