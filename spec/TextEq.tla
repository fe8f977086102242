------------------------------- MODULE TextEq -------------------------------
(***************************************************************************)
(* Comparing files.  A text means a version line and a sequence of         *)
(* sections; a section is a name and its lines; layout (blank lines, byte  *)
(* order marks, white space around lines, before the first colon and       *)
(* directly after it, whatever else stands above the first section) means  *)
(* nothing, and neither does the order of the lines of a section in which  *)
(* every line has a colon.  Two texts are equal when they mean the same.   *)
(*                                                                         *)
(* A state is a pair of texts: two texts composed of lines ("pair"), or a  *)
(* text and what became of it under edits of characters and lines          *)
(* ("edit"), or a text of sections and what became of it when one of its   *)
(* lines was removed, said twice or changed places with another ("lines"), *)
(* or two long lists of lines or of sections ("long").                     *)
(***************************************************************************)
EXTENDS Vectors

CONSTANTS PairLen,   \* lines of each text of a pair
          EditDepth, \* edits of an edited text
          ShapeLen   \* lines of a text whose lines are moved
VARIABLES mode, start, a, b, n
vars == <<mode, start, a, b, n>>

Strip(s) == Trim(ReplaceAllText(s, BOM, ""))
IsHeader(l) == StartsWith(l, "[") /\ EndsWith(l, "]")
RECURSIVE DropWs(_)
DropWs(s) == IF s = "" THEN "" ELSE (IF At(s, 1) \in UniWs THEN "" ELSE At(s, 1)) \o DropWs(From(s, 2))
HasColon(l) == Contains(l, ":")
LineMeaning(l) ==
  IF ~HasColon(l) THEN l
  ELSE LET c == SkipTo(l, 1, {":"}) IN DropWs(Upto(l, c)) \o TrimStart(From(l, c + 1))
\* lines that say something
Said(t) == SelectSeq(MapSeq(Lines(t), Strip), LAMBDA l : l # "")
RECURSIVE SectionsOf(_, _)
SectionsOf(ls, acc) ==
  IF ls = <<>> THEN acc
  ELSE IF IsHeader(ls[1]) THEN SectionsOf(Tail(ls), Append(acc, [name |-> ls[1], lines |-> <<>>]))
  ELSE SectionsOf(Tail(ls), [acc EXCEPT ![Len(acc)].lines = Append(@, LineMeaning(ls[1]))])
Meaning(t) ==
  LET ls == Said(t)
      hs == {i \in 1..Len(ls) : IsHeader(ls[i])}
      first == IF hs = {} THEN Len(ls) + 1 ELSE CHOOSE i \in hs : \A j \in hs : i <= j
  IN [ver |-> IF first > 1 /\ StartsWith(ls[1], "osu file format v") THEN ls[1] ELSE "",
      secs |-> SectionsOf(SubSeq(ls, first, Len(ls)), <<>>)]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
Unordered(s) == \A i \in 1..Len(s.lines) : HasColon(s.lines[i])
SameSection(s, t) == s.name = t.name /\ (s.lines = t.lines \/ (Unordered(s) /\ Unordered(t) /\ SameBag(s.lines, t.lines)))
SameMeaning(x, y) == /\ x.ver = y.ver
                     /\ Len(x.secs) = Len(y.secs)
                     /\ \A i \in 1..Len(x.secs) : SameSection(x.secs[i], y.secs[i])
Same(s, t) == SameMeaning(Meaning(s), Meaning(t))
\* a text that says what a meaning says
Saying(m) == Join((IF m.ver = "" THEN <<>> ELSE <<m.ver>>) \o MapSeq(m.secs, LAMBDA s : Join(<<s.name>> \o s.lines, "\n")), "\n")

(* ------------------------------ the machine ----------------------------- *)
InSection == <<"a:1", "a: 1", "a :1", " a:1", "b:1", "a:1 2", "a:12", "a:1:2", "a:1: 2", "x", "", BOM, ":", "a b:1", "[A", "x y", "[B]", "xy", BOM \o " x", "\f x">>
AtTop == <<"osu file format v14", "osu file format v3", "//c", "", "x", "[A]", " [A] ", "[B]", "a:1", BOM \o "osu file format v14", "osu file format v14 ", "[A]:", "osu file format v">>
Starts == <<"osu file format v14\n[A]\n", "", "[A]\nx\n">>
TopTexts(k) == UNION {[1..i -> 1..Len(AtTop)] : i \in 0..k}
InTexts(k) == UNION {[1..i -> 1..Len(InSection)] : i \in 0..k}
Texts(s, k) == IF s = 2 THEN TopTexts(k) ELSE InTexts(IF s = 3 THEN 1 ELSE k)
Compose(s, f) == Starts[s] \o Join([i \in 1..Len(f) |-> IF s = 2 THEN AtTop[f[i]] ELSE InSection[f[i]]], "\n")

Docs == <<"osu file format v14\n\n[A]\nab: c d\nx:y:z\n[B]\n1,2:3\n//q", "\n[A]\nb:2\na:1\nc : 3", "[A]\nx\nb:2\na:1\n\n[C]", "osu file format v9",
          "[A]\n0,0,a\n[B]\nc:3\nb:2\na:1\n[C]\nx\n[D]\n d : 1\nc:2">>
Glyphs == {" ", "\n", BOM, ":", "x", "\r\n", "[", "　"}
\* what a first edit puts in
AllGlyphs == Glyphs \cup UniWs \cup {"]", "/", "//", ",", ".", "\"", "1", "A", "é", "日", "😀", "'", "$", "v", "", "", "​", Repeat("é", 40), "a" \o Repeat("é", 40), Repeat(" ", 70), Repeat("x", 300)}
Cut(t, i, j, x) == Upto(t, i - 1) \o x \o From(t, j)
LineEdits(t) ==
  LET q == Split(t, "\n")
  IN {Join(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)), "\n") : i \in 1..Len(q)}
       \cup {Join(SubSeq(q, 1, i) \o SubSeq(q, i, Len(q)), "\n") : i \in 1..Len(q)}
       \cup {Join([k \in 1..Len(q) |-> IF k = i THEN q[j] ELSE IF k = j THEN q[i] ELSE q[k]], "\n") : i, j \in 1..Len(q)}
Edited(t, g) == {Cut(t, i, i, x) : i \in 1..(Len(t) + 1), x \in g} \cup {Cut(t, i, i + 1, x) : i \in 1..Len(t), x \in g} \cup {Cut(t, i, i + 1, "") : i \in 1..Len(t)} \cup LineEdits(t)

\* every order of lines that have a colon, lines that have none and section names
Shaped(k) == {"[A]\n" \o Join(f, "\n") : f \in UNION {[1..i -> {"b:2", "a:1", "x", "[A]", "[B]"}] : i \in 1..k}}
               \cup {"[A]\n" \o Join(f, "\n") : f \in UNION {[1..i -> {"b:2", "a:1", "A:1", "a", "[B:1]", "[ C ]", "//z:", "[]", ":q", "b :", "]"}] : i \in 1..(k - 2)}}

\* long sections and long lists of sections, and what a mistake would take them for
Numbered(c, q) == MapSeq(q, LAMBDA i : ReplaceAllText(c, "#", ToString(i)))
Backwards(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Swapped(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Others(q) == LET z == Len(q)
                 m == (z + 1) \div 2
             IN {q, Backwards(q), Tail(q) \o <<q[1]>>, Tail(q), SubSeq(q, 1, z - 1), q \o <<q[z]>>, <<q[1]>> \o q,
                 Swapped(q, 1, z), Swapped(q, z - 1, z), Swapped(q, 1, 2), Swapped(q, m, z),
                 [q EXCEPT ![z] = 0], [q EXCEPT ![1] = 0], [q EXCEPT ![m] = 0], [q EXCEPT ![1] = q[z]], [q EXCEPT ![z] = q[m]]}
Sizes(k) == {9, 17, 33, 65} \cup (IF k > 5 THEN {24, 40, 100, 129, 257} ELSE {})
LongForms == <<"k#:1", "k:#", "k#", "k# : a:b", "[S#]", "[S#]\nk:#">>
\* a mix: lines that have a colon and one that has none
LongText(f, q) == "[A]\n" \o Join(Numbered(LongForms[f], q), "\n")
LongMixed(f, q) == LongText(f, q) \o "\nx"

Init == \/ /\ mode = "long" /\ n = 0 /\ start \in 1..Len(LongForms) /\ b = ""
           /\ \E z \in Sizes(ShapeLen) : a = ToString(z)
        \/ /\ mode = "pair" /\ start \in 1..Len(Starts) /\ n = 0
           /\ \E f \in Texts(start, PairLen) : a = Compose(start, f)
           /\ b = ""
        \/ /\ mode = "edit" /\ start = 1 /\ n = 0
           /\ \E d \in 1..Len(Docs) : a = Docs[d] /\ b = a
        \/ mode = "lines" /\ start = 1 /\ n = 0 /\ a = "" /\ b = ""
Next == \/ mode = "pair" /\ n = 0 /\ n' = 1 /\ (\E f \in Texts(start, PairLen) : b' = Compose(start, f)) /\ UNCHANGED <<mode, start, a>>
        \/ mode = "edit" /\ n < EditDepth /\ n' = n + 1 /\ b' \in Edited(b, IF n = 0 THEN AllGlyphs ELSE Glyphs) /\ UNCHANGED <<mode, start, a>>
        \/ mode = "lines" /\ n = 0 /\ n' = 1 /\ a' \in Shaped(ShapeLen) /\ b' = a' /\ UNCHANGED <<mode, start>>
        \/ mode = "lines" /\ n = 1 /\ n' = 2 /\ b' \in LineEdits(a) /\ UNCHANGED <<mode, start, a>>
        \/ /\ mode = "long" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<mode, start>>
           /\ LET q == [i \in 1..IntVal(a) |-> i]
              IN \/ a' = LongText(start, q) /\ b' \in {LongText(start, r) : r \in Others(q)}
                 \/ a' = LongMixed(start, q) /\ b' \in {LongMixed(start, r) : r \in Others(q)}
Spec == Init /\ [][Next]_vars

\* an equivalence, with one text for each meaning
Lawful == LET x == Meaning(a) y == Meaning(b)
          IN /\ SameMeaning(x, x)
             /\ SameMeaning(x, y) = SameMeaning(y, x)
             /\ SameMeaning(y, Meaning(Saying(y)))
             /\ Saying(Meaning(Saying(y))) = Saying(y)
Behaviour == (mode # "long" \/ n > 0) => (Lawful /\ Emit([k |-> "same", st |-> IF Same(a, b) THEN "same" ELSE "different", t |-> a, b |-> b, v |-> 14, said |-> Saying(Meaning(b))]))
=============================================================================
