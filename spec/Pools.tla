------------------------------- MODULE Pools --------------------------------
(***************************************************************************)
(* Templates of every kind of line: the fields with their default first,   *)
(* then the rest of their domain.                                          *)
(***************************************************************************)
EXTENDS Domains

All == 3..14
Tpl(k, pre, dom, sep, vs) ==
  [k |-> k, pre |-> pre, dom |-> dom, sep |-> sep, suf |-> "", extra |-> <<sep, sep \o "x", " ">>, vs |-> vs]

(* ------------------------- key-value sections --------------------------- *)
\* a line of the section for every value, spacing and spelling of one key
KvLine(sec, i) ==
  LET key == KVFields[sec][i].key
      d == KindDom(KVFields[sec][i].kind)
  IN MapSeq(d, LAMBDA x : key \o ": " \o x)
     \o <<"", key \o ":" \o d[1], key \o ": \t " \o d[1], key \o " : " \o d[1], key \o d[1], "X" \o key \o ": " \o d[1],
          key \o ": " \o d[1] \o "\n" \o key \o ": " \o d[1], key \o ": " \o d[1] \o "\n\n", key \o ": " \o d[1] \o "\r", ":",
          key \o ": " \o d[1] \o "  ", "Other: 1", "//c">>
KvTemplate(sec, vs) ==
  Tpl(sec, "", [i \in 1..Len(KVFields[sec]) |-> KvLine(sec, i)], "\n", vs)
GeneralTemplates == <<KvTemplate("General", All)>>
EditorTemplates == <<KvTemplate("Editor", All)>>
MetadataTemplates == <<KvTemplate("Metadata", All)>>
DifficultyTemplates == <<KvTemplate("Difficulty", All)>>

(* ------------------------------- colours --------------------------------- *)
Comp(d) == <<d, "0", "255", "256", "-1", "", "x", " 7", "7 ", "007", "+7", "1.5", "\t9\t">>
ColourTemplates == <<
  Tpl("Colours", "", <<<<"Combo", "combo", "Comb", "Combos", " Combo", "SliderBorder">>,
                       <<"1", "", "0", "12", "255", "256", "2147483647", "2147483648", "-1", "x", " ">>,
                       <<" : ", ":", "  :\t", " ", "::", ": :", "">>, Comp("10"),
                       <<",", " , ", "", ";", ",,">>, Comp("20"), <<",", " ,\t", "", ";">>, Comp("30"),
                       <<"", " ", ",1", "x", "\t">>>>, "", All),
  Tpl("Colours", "", <<<<"SliderTrackOverride", "SliderBorder", "Sliderborder", "sliderborder", "SliderBorder2", "SliderTrack", "Slider", "">>,
                       <<" : ", ":", "">>, Comp("1"), <<",">>, Comp("2"), <<",">>, Comp("3"), <<"", ",4">>>>, "", All) >>

(* ----------------------------- timing points ----------------------------- *)
TimingPointTemplates == <<
  Tpl("TimingPoints", "", <<DecD("10000"), DecD("333.33"), I32("4"), I32("2"), U32("3"), I32("60"), BoolD("1"), U32("9")>>, ",", 5..14),
  Tpl("TimingPoints", "", <<DecD("10000"), DecD("333.33"), I32("4"), I32("2"), U32("3"), I32("60")>>, ",", 3..4),
  Tpl("TimingPoints", "", <<DecD("10000"), DecD("333.33")>>, ",", {3}),
  Tpl("TimingPoints", "", <<DecD("-5.5"), DecD("-50"), <<"3">>, <<"0", "1", "3", "4", "7">>, <<"0", "1", "2">>, <<"0", "100", "101">>,
                            <<"0", "1">>, <<"0", "1", "2", "3", "4", "7", "8", "12", "15", "16", "23", "4294967287">>>>, ",", All) >>

(* ------------------------------ hit objects ------------------------------ *)
TypeD(d) == <<d, "0", "1", "2", "3", "4", "5", "6", "8", "12", "16", "21", "32", "64", "112", "113", "117", "128", "132", "129", "130", "138",
              "255", "256", "257", "-1", "-128", "", "x", "1.0", "2147483647">>
SndD(d) == <<d, "0", "1", "3", "4", "6", "7", "8", "14", "15", "16", "31", "255", "256", "-1", "", "x">>
SampleD(d) == <<d, "", "0:0:0:0:", "1:2:3:4:a b.wav", "1", "1:", "1:2", "1:2:", "1:2:3", "1:2:3:", "1:2:3:4", "x", "1:x", "1:2:x", "1:2:3:x",
                "0:0:0:100:", "0:0:0:101:", "0:0:0:256:", ":", "::::", "1::3", "4:5:0:1:", "18446744073709551615:0:0:0:",
                "0:0:18446744073709551616:0:", "1:2:3:4:f:g", " ", "-1:0:0:0:", "0:0:0:0: ">>
PointsD(d) == <<d, "B", "L", "P", "C", "X|1:2", "", "B|", "B|1", "B|1:2|", "B|1:2|3", "L|1:2|3:4|-5:6.5", "P|x:y", "C|:", "B|1:2||3:4", "B|1:2:3", "|1:2", "b|1:2">>
HitObjectTemplates == <<
  Tpl("HitObjects", "", <<DecD("256"), DecD("192"), DecD("11000"), TypeD("1"), SndD("2"), SampleD("1:2:3:4:a.wav")>>, ",", All),
  Tpl("HitObjects", "", <<<<"1", "0.5">>, <<"2", "-3">>, DecD("11000"), TypeD("2"), SndD("2"), PointsD("B|200:100|2:3"), I32("2"),
                          DecD("310.5"), <<"2|1|2", "", "2", "2|", "|", "x", "2|x|3", "255", "256", "1||2", "0|0">>,
                          <<"0:0|1:2|3:4", "", "1:1", "1:1|", "x", "1:x|2:2", "1", "4:18446744073709551615", "0:0|1:2|3:4:5">>,
                          SampleD("1:2:3:4:")>>, ",", All),
  Tpl("HitObjects", "", <<<<"256">>, <<"192">>, DecD("11000"), TypeD("8"), SndD("0"), DecD("12000"), SampleD("1:1:2:50:")>>, ",", All),
  Tpl("HitObjects", "", <<<<"64">>, <<"192">>, DecD("11000"), TypeD("128"), SndD("0"),
                          MapSeq(DecD("12000"), LAMBDA x : x \o ":1:2:3:4:")
                            \o MapSeq(SampleD("1:1:2:50:"), LAMBDA x : "12000:" \o x) \o <<"12000">>>>, ",", All) >>

(* -------------------------------- events --------------------------------- *)
TimeD(d) == <<d, "0", "-1", "2147483647", "2147483624", "2147483623", "-2147483648", "-2147483625", "2147483648", "", "x", "1.5", " 1", "24", "-24", "+1">>
PosTail == <<"10,-20", "0,0", "1.5,2.50", "x,y", "1", "", "1,2,3", ",">>
LayerN(d) == <<d, "0", "1", "2", "3", "4", "5", "6", "-1", "", "x", "+1", "01", "10", "Background">>
OriginN(d) == <<d, "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "-1", "", "x", "Centre">>
SbOriginD(d) == <<d, "TopLeft", "CentreLeft", "TopRight", "BottomCentre", "TopCentre", "Custom", "CentreRight", "BottomLeft", "BottomRight",
                  "centre", "0", "1", "5", "9", "10", "255", "-1", "", "x">>
SbLayerD(d) == <<d, "Background", "Fail", "Foreground", "Overlay", "Video", "pass", "0", "3", "">>
VolD(d) == <<d, "0", "1", "100", "101", "255", "256", "-1", "", "x", " 5">>
Heads(d) == <<d, d \o " ", "x" \o d, d \o "x", "//" \o d>>
EventTemplates == <<
  Tpl("Events", "", <<Heads("0"), I32("0"), Path("bg.jpg"), PosTail>>, ",", {3, 4, 5, 13, 14}),
  Tpl("Events", "", <<Heads("1") \o Heads("Video"), TimeD("100"), Path("\"v i.avi\""), PosTail>>, ",", {3, 4, 5, 14}),
  Tpl("Events", "", <<Heads("2") \o Heads("Break"), TimeD("100"), TimeD("200")>>, ",", {3, 4, 5, 14}),
  Tpl("Events", "", <<Heads("3"), TimeD("100"), U8D("1"), U8D("2"), U8D("3")>>, ",", {3, 4, 5, 13, 14}),
  Tpl("Events", "", <<Heads("4"), LayerN("1"), OriginN("2"), Path("s.png"), PosTail>>, ",", {3, 13, 14}),
  Tpl("Events", "", <<Heads("5"), LayerN("1"), OriginN("2"), Path("s.png"), PosTail>>, ",", {3, 14}),
  Tpl("Events", "", <<Heads("6"), DecD("100"), LayerN("2"), Path("s.wav"), VolD("40")>>, ",", {3, 4, 14}),
  Tpl("Events", "", <<Heads("Sprite"), SbLayerD("Pass"), SbOriginD("Centre"), Path("\"a.png\""), DecD("320"), DecD("240")>>, ",", {3, 14}),
  Tpl("Events", "", <<Heads("Animation"), SbLayerD("Pass"), SbOriginD("Centre"), Path("\"a.png\""), DecD("320"), DecD("240"), U32("4"),
                      DecD("100.5"), <<"LoopOnce", "LoopForever", "loopOnce", "", "0", "LoopOnce ">>>>, ",", {3, 14}),
  Tpl("Events", "", <<Heads("Sample"), TimeD("100"), <<"2", "0", "1", "3", "4", "-1", "", "x", "Pass">>, Path("\"a.wav\""), VolD("70")>>, ",", {3, 4, 14}),
  Tpl("Events", "//", << <<"note", "", " ", " note ", "/", "//", "0", " F", "a\tb\t">>, <<"x", "", " y ", "\"", "é">> >>, ",", {3, 14}) >>

(* ------------------------------- commands -------------------------------- *)
EaseD == <<"0", "1", "34", "35", "-1", "", "x", "00", "+3", "2147483647", "2147483648", "1.5", "19">>
StD == <<"100", "", "-5", "x", "2147483647", "2147483648", " ", "1.5">>
EtD == <<"200", "", " ", "x", "-2147483648", "2147483648", "1.5">>
ValD(d) == <<d, "", "x", "1.50", "-2", " 3", "0">>
CmdTpl(kind, vals) == Tpl("Events", "Sprite,Pass,Centre,\"a.png\",320,240\n " \o kind \o ",", <<EaseD, StD, EtD>> \o vals, ",", {14})
U8V(d) == <<d, "0", "255", "256", "-1", "", "x", "1.5">>
ParD(d) == <<d, "H", "V", "A", "h", "", "HV", " H">>
TrigD == <<"HitSound", "Passing", "Failing", "passing", "HitSoundSoft", "HitSoundAllDrum", "HitSoundNormalSoftClap", "HitSoundWhistle",
           "HitSoundDrumFinish", "HitSound3", "HitSound12", "HitSoundSoft7", "HitSoundSoftDrumClap255", "HitSoundSoftSoftSoft", "HitSoundClapSoft",
           "HitSoundsoft", "HitSoundX", "HitSound3Soft", "HitSoundSoftDrumClap2x", "HitSoundSoftDrumClap1a2", "HitSoundSoftDrumClap2Soft", "", " HitSoundSoft ", "Hit",
           "HitSound-1", "HitSound007", "HitSoundSoft18446744073709551616", "HitSound1a2">>
CommandTemplates == <<
  CmdTpl("F", <<ValD("0.1"), ValD("0.2"), ValD("0.3")>>),
  CmdTpl("S", <<ValD("1"), ValD("2")>>),
  CmdTpl("R", <<ValD("1"), ValD("2")>>),
  CmdTpl("MX", <<ValD("1"), ValD("2"), ValD("3")>>),
  CmdTpl("MY", <<ValD("1"), ValD("2")>>),
  CmdTpl("M", <<ValD("1"), ValD("2"), ValD("3"), ValD("4"), ValD("5")>>),
  CmdTpl("V", <<ValD("1"), ValD("2"), ValD("3"), ValD("4"), ValD("5"), ValD("6")>>),
  CmdTpl("C", <<U8V("1"), U8V("2"), U8V("3"), U8V("4"), U8V("5"), U8V("6"), U8V("7")>>),
  CmdTpl("P", <<ParD("H"), ParD("V"), ParD("A")>>),
  Tpl("Events", "Sprite,Pass,Centre,\"a.png\",320,240\n L,", <<StD, U32("3")>>, ",", {14}),
  Tpl("Events", "Sprite,Pass,Centre,\"a.png\",320,240\n T,", <<TrigD, StD, EtD, I32("5")>>, ",", {14}),
  Tpl("Events", "Sprite,Pass,Centre,\"a.png\",320,240\n", <<<<" F", " FF", " MXX", " M", " MX", " MY", " MZ", " m", " X", " ", " S", " R", " V", " C", " P", " L", " T",
       "_F", "__F", "  F", " _F", "F", "\tF", " \tF">>, <<"0", "1">>, <<"1", "">>, <<"2", "">>, <<"H", "1">>, <<"1", "0">>, <<"1">>>>, ",", {14}) >>
=============================================================================
