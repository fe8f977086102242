------------------------------- MODULE Edits --------------------------------
(***************************************************************************)
(* A text editor.  A valid text of every kind is changed by up to K edits  *)
(* of one character each: a character is inserted, replaced, removed,      *)
(* doubled, or exchanged with the next one.  Each state is one text.       *)
(***************************************************************************)
EXTENDS Vectors

CONSTANTS EditTasks,   \* sequence of [g, k, t, vs]
          Wanted,      \* groups of tasks
          K,           \* how many edits
          Chars,       \* the characters that are put in
          Judge
VARIABLES task, ver, txt, n
vars == <<task, ver, txt, n>>

E == EditTasks[task]
Init == /\ task \in {i \in 1..Len(EditTasks) : EditTasks[i].g \in Wanted}
        /\ ver \in EditTasks[task].vs
        /\ txt = EditTasks[task].t
        /\ n = 0

Insert  == \E p \in 0..Len(txt) : \E c \in Chars : txt' = Upto(txt, p) \o c \o From(txt, p + 1)
Replace == \E p \in 1..Len(txt) : \E c \in Chars \ {At(txt, p)} : txt' = Upto(txt, p - 1) \o c \o From(txt, p + 1)
Remove  == \E p \in 1..Len(txt) : txt' = Upto(txt, p - 1) \o From(txt, p + 1)
Double  == \E p \in 1..Len(txt) : txt' = Upto(txt, p) \o From(txt, p)
Swap    == \E p \in 1..(Len(txt) - 1) : txt' = Upto(txt, p - 1) \o At(txt, p + 1) \o At(txt, p) \o From(txt, p + 2)
Next == /\ n < K
        /\ n' = n + 1
        /\ (Insert \/ Replace \/ Remove \/ Double \/ Swap)
        /\ UNCHANGED <<task, ver>>
Spec == Init /\ [][Next]_vars

Vector == Vec(E.k, txt, ver, IF ver = 14 THEN <<14>> ELSE <<ver, 14>>, Judge, "")
Behaviour == LET x == Vector IN Emit(x) /\ VecStable(x) /\ (Judge > 0 => SameInFile(x))

\* characters that some rule of the format treats on its own
FewChars == {" ", "\t", ",", ":", "1", "-", "a", "\n", "|", "\"", ".", "é"}
\* and texts that are put in like a character
Wide == {Repeat("é", 40), "a" \o Repeat("é", 40)}
Far == {Repeat("日", 50), Repeat("😀", 33), "ab" \o Repeat("日", 50), Repeat("9", 11), Repeat("0", 12), Repeat("a", 300), Repeat(" ", 40), Repeat("\"", 3)}
SomeChars == FewChars \cup Wide \cup {"\f", "", "\r", "/", "_", "$", "[", "]", "0", "9", "A", "+", "=", "'", "\\", "#", "日", "😀", BOM, " ", "　", "", "", ""}
ManyChars == SomeChars \cup Far \cup UniWs \cup {"!", "%", "&", "(", ")", "*", ";", "<", ">", "?", "@", "^", "`", "{", "}", "~", "e", "E", "x", "2", "8", "B", "L", "M", "X", "S", "z",
                "İ", "ſ", "ß", "²", "٣", "½", "１", "，", "：", "－", "", "​", "", ""}

Ed(g, k, t, vs) == [g |-> g, k |-> k, t |-> t, vs |-> vs]
Sprite0 == "Sprite,Pass,Centre,\"a.png\",320,240\n"
CmdEd(t) == Ed("cmd", "Events", "Sprite,Fail,TopLeft,a,1,2\n " \o t, {14})
AllTasks == <<
  Ed("kv", "General", "AudioFilename: a b.mp3\nPreviewTime: -1\nCountdown: 2", {14}),
  Ed("kv", "General", "SampleSet: Soft\nStackLeniency: 0.7\nMode: 3\nLetterboxInBreaks: 1", {14}),
  Ed("kv", "General", "OverlayPosition: Below\nSkinPreference:x", {14}),
  Ed("kv", "General", "EditorBookmarks: 1,-2\nEditorDistanceSpacing: 1.2\nAudioHash: a", {5}),
  Ed("kv", "Editor", "Bookmarks: 11,24\nDistanceSpacing: 1.2\nBeatDivisor: 4", {14}),
  Ed("kv", "Metadata", "Title:a b\nTags:c d  e\nBeatmapID:12", {14}),
  Ed("kv", "Difficulty", "CircleSize:4\nSliderMultiplier:1.4\nSliderTickRate:1", {14, 3}),
  Ed("tp", "TimingPoints", "24,333.33,4,2,1,70,1,9", {5, 14}),
  Ed("tp", "TimingPoints", "-5,-50,3,1,0,100", {4}),
  Ed("ho", "HitObjects", "256,192,110,5,2,1:2:3:40:a b.wav", {14}),
  Ed("ho", "HitObjects", "1,2,3.5,2,10,B|20:10|2:-3,2,31.5,2|0,0:0|1:2,1:2:3:40:", {14}),
  Ed("ho", "HitObjects", "1,2,30,6,0,P|1:2|3:4,1,100", {3}),
  Ed("ho", "HitObjects", "256,192,11,12,0,57.5,0:0:0:0:", {14, 4}),
  Ed("ho", "HitObjects", "64,192,11,128,0,95:1:1:0:0:", {14}),
  Ed("col", "Colours", "Combo1 : 10,20,255", {14}),
  Ed("col", "Colours", "SliderTrackOverride : 1,2,3\nSliderBorder : 0,0,4", {14}),
  Ed("ev", "Events", "0,0,\"a b.jpg\",1,-2", {14}),
  Ed("ev", "Events", "Video,100,\"v.avi\"\n2,10,200", {14, 3}),
  Ed("ev", "Events", "3,100,163,162,255\nBreak,-5,6", {14}),
  Ed("ev", "Events", "4,3,1,s.png,320,240\n6,12,2,s.wav,50", {14}),
  Ed("ev", "Events", "5,1,0,\"a.png\",1,2", {14}),
  Ed("ev", "Events", "//n\nSample,100,2,\"s.wav\",60", {14}),
  Ed("ev", "Events", "Sprite,Overlay,BottomRight,\"a b.png\",320,240.5", {14}),
  Ed("ev", "Events", "Animation,Fail,Centre,\"a.png\",1,2,4,100.5,LoopOnce", {14}),
  CmdEd("F,0,100,200,1,0.5"), CmdEd("M,3,-1,,1,2,3,4"), CmdEd("MX,34,,5,-1.5"), CmdEd("S,0,1,2,1,2,3"), CmdEd("V,0,1,2,1,2,3,4"),
  CmdEd("R,0,1,2,0.25"), CmdEd("C,0,1,2,255,0,7,1,2,3"), CmdEd("P,0,1,2,H,V"), CmdEd("L,10,3\n  F,0,1,2,1\n MY,1,2,3,4"),
  CmdEd("T,HitSoundSoftAllClap2,10,20,3\n  F,0,1,2,1"), CmdEd("T,Passing"),
  Ed("osb", "osb", "//[c]\n[Events]\n//d\n", {14}),
  Ed("osb", "osb", "[Variables]\n$ab=1,2\n$a=3\n\n[Events]\n" \o Sprite0 \o " M,0,$a,$ab,$ab", {14}),
  Ed("doc", "doc", "osu file format v14\n\n[General]\nMode: 1\n", {14}),
  Ed("doc", "doc", "\n \nosu file format v5\n//c\n [Metadata]\nTitle:a\n\n[HitObjects]\n1,2,3,1,0", {14}) >>
=============================================================================
