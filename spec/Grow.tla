-------------------------------- MODULE Grow --------------------------------
(***************************************************************************)
(* Very long texts.  A text in which the same unit stands n times grows    *)
(* regularly: its outcome does not depend on n, an error in its tail moves *)
(* down by the lines of a unit, and the value and every written text gain  *)
(* one and the same piece, at one and the same place, with every unit.     *)
(* That law is checked here for the texts of up to Upto units; it then     *)
(* says what has to become of a text of any length, and the code is judged *)
(* on texts of Sizes units, far longer than TLC could read.                *)
(***************************************************************************)
EXTENDS Vectors

CONSTANTS GrowTasks,  \* sequence of [g, k, head, unit, tails, vs]
          Sizes,      \* how often the unit stands in the code's text
          MaxUnits,   \* how often it stands at most in the texts read here
          Wanted,     \* groups of tasks
          Judge
VARIABLES task, fin, ver, n
vars == <<task, fin, ver, n>>

G == GrowTasks[task]
TextOf(i) == G.head \o Repeat(G.unit, i) \o G.tails[fin]
PvOf == IF ver = 14 THEN <<14>> ELSE <<ver, 14>>
At_(i) == Vec(G.k, TextOf(i), ver, PvOf, Judge, "")
\* a text that has become longer: what was before, what came to be, what was behind
RECURSIVE CommonFrom(_, _, _)
CommonFrom(s, t, i) == IF i > Len(s) \/ i > Len(t) \/ At(s, i) # At(t, i) THEN i - 1 ELSE CommonFrom(s, t, i + 1)
Growth(s, t) == LET c == CommonFrom(s, t, 1) IN [a |-> Upto(s, c), m |-> Sub(t, c + 1, c + Len(t) - Len(s)), b |-> From(s, c + 1)]
Grown(g, i) == g.a \o Repeat(g.m, i - 2) \o g.b

\* what a text of i units means, from the ones of two and three units
X2 == At_(2)
X3 == At_(3)
Law == IF X2.st = "ok" THEN [obs |-> Growth(X2.obs, X3.obs), pr |-> [j \in 1..Len(X2.pr) |-> [vs |-> X2.pr[j].vs, t |-> Growth(X2.pr[j].t, X3.pr[j].t)]],
                             rt |-> X2.rt, line |-> 0, dline |-> 0, lost |-> 0, dlost |-> 0, msg |-> ""]
       ELSE IF X2.st = "none" THEN [obs |-> "", pr |-> <<>>, rt |-> <<>>, line |-> 0, dline |-> 0, lost |-> 0, dlost |-> 0, msg |-> ""]
       ELSE [obs |-> "", pr |-> <<>>, rt |-> <<>>, line |-> X2.line, dline |-> X3.line - X2.line, lost |-> X2.lost, dlost |-> X3.lost - X2.lost, msg |-> X2.msg]
Follows(x, l, i) ==
  /\ x.st = X2.st
  /\ x.st = "ok" => /\ x.obs = Grown(l.obs, i)
                    /\ Len(x.pr) = Len(l.pr)
                    /\ \A j \in 1..Len(x.pr) : x.pr[j].vs = l.pr[j].vs /\ x.pr[j].t = Grown(l.pr[j].t, i)
                    /\ x.rt = l.rt
  /\ x.st = "err" => x.line = l.line + (i - 2) * l.dline /\ x.lost = l.lost + (i - 2) * l.dlost /\ x.msg = l.msg

Init == /\ task \in {i \in 1..Len(GrowTasks) : GrowTasks[i].g \in Wanted}
        /\ fin = 1
        /\ ver \in GrowTasks[task].vs
        /\ n = 0
Next == /\ n = 0
        /\ fin' \in 1..Len(G.tails)
        /\ n' \in Sizes
        /\ UNCHANGED <<task, ver>>
Spec == Init /\ [][Next]_vars

Behaviour ==
  n > 0 => LET l == Law
           IN /\ \A i \in 2..MaxUnits : Follows(At_(i), l, i)
              /\ Emit([k |-> "grow", of |-> G.k, head |-> G.head, unit |-> G.unit, tail |-> G.tails[fin], n |-> n, v |-> ver, pv |-> PvOf,
                       st |-> X2.st] @@ l)

Gr(g, k, head, unit, tails, vs) == [g |-> g, k |-> k, head |-> head, unit |-> unit, tails |-> tails, vs |-> vs]
Sprite0 == "Sprite,Pass,Centre,\"a.png\",320,240\n"
AllTasks == <<
  Gr("tp", "TimingPoints", "", "1,500,4,2,1,70,1,0\n", <<"7,-50", "7,x">>, {5, 14}),
  Gr("ho", "HitObjects", "", "1,2,3,1,0,0:0:0:0:\n", <<"7,2,3,1,0,0:0:0:0:", "7,2,3,0,0">>, {9, 14}),
  Gr("ho", "HitObjects", "1,2,3,2,0,B", "|1:2", <<",1,100", ",1,100,2|0,0:0|1:1,0:0:0:0:", "|x">>, {9, 14}),
  Gr("ho", "HitObjects", "1,2,3,2,0,L|1:2,1,100,", "2|", <<"0,0:0|1:1,0:0:0:0:", "x">>, {14}),
  Gr("ho", "HitObjects", "1,2,3,1,0,1:2:3:40:", "ab", <<".wav", ":x">>, {14}),
  Gr("col", "Colours", "", "Combo1 : 1,2,3\n", <<"SliderBorder : 7,8,9", "Combo1 : 1,2">>, {5, 14}),
  Gr("kv", "Editor", "Bookmarks: ", "1,", <<"7", "x", "2\nGridSize: x">>, {14}),
  Gr("kv", "Metadata", "Tags:", "tag ", <<"b", "b\nBeatmapID:x">>, {14}),
  Gr("kv", "Metadata", "Title:", "ab", <<"c", "c\nTitle:d">>, {14}),
  Gr("kv", "Metadata", "Title:a\n", "\n", <<"Artist:b", "Artist", "Title:c">>, {14}),
  Gr("kv", "Difficulty", "CircleSize:", "0", <<"7", "x">>, {14}),
  Gr("ev", "Events", "", "2,1,2\n", <<"2,3,4", "2,x,4">>, {3, 14}),
  Gr("ev", "Events", "", "//note\n", <<"2,3,4", "//end">>, {3, 14}),
  Gr("ev", "Events", "0,0,\"b.png\",0,0\n", " F,0,1,2,1\n", <<"0,0,\"c.png\",0,0", " F,x,1,2,1">>, {14}),
  Gr("ev", "Events", "", Sprite0 \o " L,1,2\n  F,0,1,2,1\n", <<"2,3,4", "x">>, {14}),
  Gr("cmd", "Events", Sprite0 \o " F,0,1,2,1", ",1", <<",7", ",x">>, {14}),
  Gr("cmd", "Events", Sprite0 \o " M,0,1,2,1,2", ",1,2", <<",7", "">>, {14}),
  Gr("cmd", "Events", Sprite0 \o " C,0,1,2,1,2,3", ",4,5,6", <<"", ",x">>, {14}),
  Gr("osb", "osb", "[Variables]\n", "$a=1\n", <<"\n[Events]\n" \o Sprite0 \o " F,0,$a,2,0", "$b">>, {14}),
  Gr("osb", "osb", "[Events]\n", Sprite0 \o " F,0,1,2,1\n", <<"2,3,4", "x">>, {14}),
  Gr("osb", "osb", "", "//c\n", <<"[Events]\n2,3,4", "[Events]\nx", "x">>, {14}),
  Gr("doc", "doc", "osu file format v14\n", "\n", <<"[General]\nMode: 0", "[General]\nMode: x", "x">>, {14}),
  Gr("doc", "doc", "osu file format v14\n", "//c\n", <<"[HitObjects]\n1,2,3,1,0", "[HitObjects]\n1,2,3,1", "[Bogus]">>, {14}),
  Gr("doc", "doc", "", "\n", <<"osu file format v14", "osu file format v2">>, {14}),
  Gr("doc", "doc", "osu file format v14\n\n[HitObjects]\n", "1,2,3,1,0,0:0:0:0:\n", <<"\n[TimingPoints]\n1,500", "\n[TimingPoints]\n1,x", "\n[HitObjects]">>, {14}) >>
=============================================================================
