-------------------------------- MODULE Long --------------------------------
(***************************************************************************)
(* Long texts.  A task has a unit that stands n times in a row, each with  *)
(* its own number in place of "#" (and its depth in place of "~"), between *)
(* a head and one of several tails.  A state is one such text: what holds  *)
(* for one element has to hold for every one of them, in the same order.   *)
(***************************************************************************)
EXTENDS Vectors

CONSTANTS LongTasks,   \* sequence of [g, k, head, units, sep, tails, vs, max]
          Counts,      \* how often the unit stands
          Wanted,      \* groups of tasks
          Judge
VARIABLES task, n, fin, ver
vars == <<task, n, fin, ver>>

L == LongTasks[task]
\* units take turns
Nth(u, i) == ReplaceAllText(ReplaceAllText(u, "#", ToString(i)), "~", Repeat(" ", i))
TextOf == L.head \o Join([i \in 1..n |-> Nth(L.units[((i - 1) % Len(L.units)) + 1], i)], L.sep) \o Nth(L.tails[fin], n + 1)
Init == /\ task \in {i \in 1..Len(LongTasks) : LongTasks[i].g \in Wanted}
        /\ n = 0
        /\ fin = 1
        /\ ver \in LongTasks[task].vs
Next == /\ n = 0
        /\ n' \in {c \in Counts : c <= L.max}
        /\ fin' \in 1..Len(L.tails)
        /\ UNCHANGED <<task, ver>>
Spec == Init /\ [][Next]_vars

Vector == Vec(L.k, TextOf, ver, IF ver = 14 THEN <<14>> ELSE <<ver, 14>>, Judge, "")
Behaviour == n > 0 => LET x == Vector IN Emit(x) /\ VecStable(x)

Tk(g, k, head, units, sep, tails, vs, max) == [g |-> g, k |-> k, head |-> head, units |-> units, sep |-> sep, tails |-> tails, vs |-> vs, max |-> max]
Sprite0 == "Sprite,Pass,Centre,\"a.png\",320,240\n"
AllTasks == <<
  \* lists
  Tk("tp", "TimingPoints", "", <<"#,500,4,2,1,70,1,0", "#.5,-50,4,1,#,#,0,1", "-#,#,3,3,0,100,1,8">>, "\n", <<"", "\nx,1", "\n\n1,2">>, {4, 5, 14}, 300),
  Tk("ho", "HitObjects", "", <<"#,2,#,1,0,0:0:0:0:", "1,#,#,5,2,1:2:3:#:a.wav", "#,#,#,12,4,#0,0:0:0:0:">>, "\n", <<"", "\n1,2,3,1", "\n1,2,3,0,0">>, {3, 14}, 90),
  Tk("ho", "HitObjects", "1,2,3,2,0,B|", <<"#:#", "-#:0">>, "|", <<",1,100", ",1,100,2|0,0:0|1:1,0:0:0:0:", "|x", "|1:2,x">>, {3, 9, 14}, 300),
  Tk("ho", "HitObjects", "1,2,3,2,0,L|1:2,1,100,", <<"2", "0", "8", "15">>, "|", <<"", ",0:0|1:1,0:0:0:0:", "|x,0:0">>, {3, 14}, 300),
  Tk("ho", "HitObjects", "1,2,3,2,0,P|1:2,1,100,2|0,", <<"0:#", "#:1">>, "|", <<",0:0:0:0:", "", "|1">>, {9, 14}, 300),
  Tk("ho", "HitObjects", "1,2,3,1,0,1:2:3:40:", <<"a b", "日", "#.wav">>, "-", <<"", "\n", ":x">>, {10, 14}, 100),
  Tk("col", "Colours", "", <<"Combo# : 1,2,3", "Combo#:#,0,255", "SliderBorder : #,#,#">>, "\n", <<"", "\nCombo1 : 1,2", "\n\nSliderTrackOverride : 7,8,9">>, {5, 14}, 250),
  Tk("kv", "Editor", "Bookmarks: ", <<"#", "-#0">>, ",", <<"", ",x", "\nGridSize: 4", "\n\n\nBookmarks: 1">>, {14}, 300),
  Tk("kv", "General", "EditorBookmarks: ", <<"#", "5">>, ",", <<"", "\nMode: 0">>, {3, 5, 6}, 100),
  Tk("kv", "Metadata", "Tags:", <<"tag#", "日本", "a:b">>, " ", <<"", " ", "\nBeatmapID:#">>, {14}, 300),
  Tk("kv", "Metadata", "Title:", <<"word#", "[x]", "//">>, " ", <<"", "\r\nTitle:a", "\nArtist:b">>, {14}, 300),
  Tk("kv", "Metadata", "Title:a", <<"\n", " \n", "\r\n">>, "", <<"Artist:b", "Artist", "Title:c">>, {14}, 300),
  Tk("kv", "Difficulty", "CircleSize:", <<"0">>, "", <<"7", ".5", "x">>, {14}, 100),
  Tk("kv", "Difficulty", "SliderMultiplier:1.", <<"3">>, "", <<"", "0", "\nSliderTickRate:2">>, {14}, 26),
  Tk("kv", "General", "PreviewTime:", <<"0">>, "", <<"7", "2147483648", "x">>, {14}, 40),
  \* events
  Tk("ev", "Events", "", <<"0,#,\"b#.png\",0,0", "//note #", "Video,#,\"v.avi\"", "2,#,1000000", "Sample,#,0,\"s.wav\",60">>, "\n", <<"", "\n F,0,1,2,1", "\n0,x">>, {3, 14}, 100),
  Tk("ev", "Events", "", <<"Sprite,Pass,Centre,\"a#.png\",#,240\n F,0,#,2,1">>, "\n", <<"", "\n  F,0,1,2,1", "\n F,0,1,2">>, {14}, 60),
  Tk("ev", "Events", Sprite0, <<" F,0,#,2,1", " M,1,#,,1,2,3,4", " P,0,,,H">>, "\n", <<"", "\nx">>, {5, 14}, 150),
  Tk("ev", "Events", Sprite0, <<"~L,#,2", "~T,Passing,#,9">>, "\n", <<"", "\n~F,0,1,2,#", "\n~F,0,1,2,1\n F,0,1,2,0", "\n~~F,0,1,2,1", "\n~ F,0,1,2,1">>, {14}, 24),
  Tk("cmd", "Events", Sprite0 \o " F,0,1,2,1,", <<"#", "-0.#">>, ",", <<"", ",">>, {14}, 300),
  Tk("cmd", "Events", Sprite0 \o " M,0,1,2,1,2,", <<"#,1", "-#,2.5">>, ",", <<"", ",7", ",">>, {14}, 100),
  Tk("cmd", "Events", Sprite0 \o " V,3,1,2,1,2,", <<"#,1">>, ",", <<"", ",7">>, {14}, 100),
  Tk("cmd", "Events", Sprite0 \o " C,0,1,2,1,2,3,", <<"#,#,#", "0,255,7">>, ",", <<"", ",7", ",7,8", ",300", ",7,8,x">>, {14}, 80),
  Tk("cmd", "Events", Sprite0 \o " P,0,1,2,", <<"H", "V", "A">>, ",", <<"", ",X">>, {14}, 80),
  Tk("cmd", "Events", Sprite0 \o " S,0,", <<"0">>, "", <<"1,2,3", "7,,1">>, {14}, 40),
  \* storyboard files
  Tk("osb", "osb", "[Variables]\n", <<"$a#=#", "$b#=x,#">>, "\n", <<"", "\n[Events]\n" \o Sprite0 \o " F,0,$a1,$a3,0", "\n[Events]\n" \o Sprite0 \o " M,0,$a11,$a5,1,2\n F,0,$a7,8,9", "\n$">>, {14}, 60),
  Tk("osb", "osb", "[Variables]\n$v=", <<"1,2">>, ",", <<"\n[Events]\n" \o Sprite0 \o " M,0,1,2,$v\n M,0,$v">>, {14}, 40),
  Tk("osb", "osb", "", <<"//c#", "", " ">>, "\n", <<"\n[Events]\n" \o Sprite0 \o " F,0,1", "\n[Events]\nx", "\nx">>, {14}, 300),
  \* files
  Tk("doc", "doc", "osu file format v14\n", <<"//c#", "", " \t">>, "\n", <<"\n[General]\nMode: x", "\nx", "\n[General]\nMode: 0\n[General]", "\n[Bogus]", "\n[HitObjects">>, {14}, 300),
  Tk("doc", "doc", "", <<"\n">>, "", <<"osu file format v14", "osu file format v2", "x">>, {14}, 300),
  Tk("doc", "doc", "osu file format v", <<"0">>, "", <<"14", "9\n[General]\nMode: 1", "15">>, {14}, 60),
  Tk("doc", "doc", "osu file format v14\n\n[Metadata]\nTitle:a", <<"\n">>, "", <<"Artist:b", "Title:c", "x", "[HitObjects]\n1,2,3,1,0", "[HitObjects]\n1,2">>, {14}, 300),
  Tk("doc", "doc", "osu file format v9\n\n[HitObjects]\n", <<"#,2,#,1,0">>, "\n", <<"", "\n1,2", "\n\n[TimingPoints]\n1,x", "\n[Editor]\nGridSize: 4\n[Editor]">>, {14}, 100) >>
=============================================================================
