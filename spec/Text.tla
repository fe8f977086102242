-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Character-level text operations used by every grammar of the            *)
(* specification.  A text is a TLA+ string; positions are 1-based.  The    *)
(* classes below are the ones the file format distinguishes:               *)
(*   Blank   : space and tab                (separators inside a line)     *)
(*   Ws      : Blank plus CR and LF         (white space between items)    *)
(*   UniWs   : everything Unicode calls White_Space (line trimming)        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Blank == {" ", "\t"}
Ws    == {" ", "\t", "\r", "\n"}
(* the control characters stand in the string as they are: TLA+ has no escape for them *)
UniWs == {" ", "\t", "\r", "\n", "\f", "", "", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "　"}
BOM   == "﻿"

At(s, i)   == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
Sub(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, j)

StartsAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
StartsWith(s, t)  == StartsAt(s, 1, t)
EndsWith(s, t)    == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

\* first position >= i whose character is not in cs (Len+1 when none)
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, cs) == IF i <= Len(s) /\ At(s, i) \in cs THEN SkipIn(s, i + 1, cs) ELSE i

\* first position >= i whose character is in cs (Len+1 when none)
RECURSIVE SkipTo(_, _, _)
SkipTo(s, i, cs) == IF i > Len(s) \/ At(s, i) \in cs THEN i ELSE SkipTo(s, i + 1, cs)

RECURSIVE BackIn(_, _, _)
BackIn(s, j, cs) == IF j >= 1 /\ At(s, j) \in cs THEN BackIn(s, j - 1, cs) ELSE j

Trim(s) == LET a == SkipIn(s, 1, UniWs)
               b == BackIn(s, Len(s), UniWs)
           IN Sub(s, a, b)
TrimStart(s) == From(s, SkipIn(s, 1, UniWs))

IsBlankText(s) == SkipIn(s, 1, UniWs) > Len(s)

\* positions of the character c in s, in order
Positions(s, c) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : SubSeq(s, i, i) = c)
CountChar(s, c) == Len(Positions(s, c))
Contains(s, t)  == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

\* all pieces of s between separators c:  Split("a,,b", ",") = <<"a", "", "b">>
Split(s, c) == LET p == Positions(s, c)
                   k == Len(p)
               IN [j \in 1..(k + 1) |->
                     Sub(s, IF j = 1 THEN 1 ELSE p[j - 1] + 1,
                            IF j = k + 1 THEN Len(s) ELSE p[j] - 1)]

\* s up to / after the first c at or after position i
FieldAt(s, i, c) == Sub(s, i, SkipTo(s, i, {c}) - 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, i, sep) == IF i > Len(q) THEN ""
                       ELSE IF i = Len(q) THEN q[i]
                       ELSE q[i] \o sep \o JoinFrom(q, i + 1, sep)
Join(q, sep) == JoinFrom(q, 1, sep)

\* lines of a text: cut at LF, one trailing CR removed, no empty last line
StripCR(l) == IF l # "" /\ At(l, Len(l)) = "\r" THEN Upto(l, Len(l) - 1) ELSE l
Lines(s) == IF s = "" THEN <<>>
            ELSE LET q == Split(s, "\n")
                     r == IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
                     \* a final piece that is not LF-terminated keeps its CR
                     n == Len(r)
                     terminated == q[Len(q)] = ""
                 IN [i \in 1..n |-> IF i = n /\ ~terminated THEN r[i] ELSE StripCR(r[i])]

\* number of line ends in a text
LfCount(s) == CountChar(s, "\n")

RECURSIVE Repeat(_, _)
Repeat(t, n) == IF n <= 0 THEN "" ELSE t \o Repeat(t, n - 1)

\* t with every non-overlapping occurrence of a (left to right) replaced by b
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(s, i, a, b) ==
  IF i > Len(s) THEN ""
  ELSE IF StartsAt(s, i, a) THEN b \o ReplFrom(s, i + Len(a), a, b)
  ELSE At(s, i) \o ReplFrom(s, i + 1, a, b)
ReplaceAllText(s, a, b) == IF a = "" THEN s ELSE IF Contains(s, a) THEN ReplFrom(s, 1, a, b) ELSE s

MapSeq(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
=============================================================================
