------------------------------ MODULE Deviate -------------------------------
(***************************************************************************)
(* An editor of one line.  A template gives the line's fields with their   *)
(* default first; a step replaces the default of one field by another      *)
(* value of its domain or by the text of another field, cuts the line      *)
(* after some field, or appends a surplus text.  Within K steps every      *)
(* combination of K deviations is reached; each state is one text, read as *)
(* a file of version `ver`.  With Good, only deviations that are valid on  *)
(* their own are made: what valid values do together.                      *)
(***************************************************************************)
EXTENDS Lines

CONSTANTS K,           \* how many deviations
          Judge        \* round trips: 0 none, 1 for the version read, 2 for every version written
VARIABLES tpl, ver, f, cut, ext
vars == <<tpl, ver, f, cut, ext>>

T == Templates[tpl]
N == Len(T.dom)
TextOf == LineOf(T, f, cut, ext)
Plain == \A i \in 1..N : f[i] = 1
Deviations == Cardinality({i \in 1..N : f[i] # 1}) + (IF cut < N THEN 1 ELSE 0) + (IF ext # 0 THEN 1 ELSE 0)

Init == /\ tpl \in 1..Len(Templates)
        /\ ver \in Templates[tpl].vs \cap Vs
        /\ f = Ones(Templates[tpl])
        /\ cut = Len(Templates[tpl].dom)
        /\ ext = 0

Replace == \E i \in 1..cut : /\ f[i] = 1
                             /\ \E j \in (IF Good THEN GoodTab[tpl][ver].val[i] ELSE 2..Len(T.dom[i])) : f' = [f EXCEPT ![i] = j]
                             /\ UNCHANGED <<tpl, ver, cut, ext>>
\* two fields that are the same
Copy == /\ Plain
        /\ \E i, j \in 1..cut : i # j /\ T.dom[i][1] # T.dom[j][1] /\ (Good => <<i, j>> \in GoodTab[tpl][ver].cpy) /\ f' = [f EXCEPT ![i] = Len(T.dom[i]) + j]
        /\ UNCHANGED <<tpl, ver, cut, ext>>
Cut == /\ cut = N
       /\ \E c \in (IF Good THEN GoodTab[tpl][ver].cut ELSE 0..(N - 1)) : (\A i \in (c + 1)..N : f[i] = 1) /\ cut' = c
       /\ UNCHANGED <<tpl, ver, f, ext>>
Surplus == /\ ext = 0
           /\ \E x \in (IF Good THEN GoodTab[tpl][ver].ext ELSE 1..Len(T.extra)) : ext' = x
           /\ UNCHANGED <<tpl, ver, f, cut>>
Next == Deviations < K /\ (Replace \/ Copy \/ Cut \/ Surplus)
Spec == Init /\ [][Next]_vars

\* with at most one deviation the value is written for every version, else for its own and the latest
Targets == IF Deviations <= 1 THEN AllVersions ELSE IF ver = 14 THEN <<14>> ELSE <<ver, 14>>
Vector == Vec(T.k, TextOf, ver, Targets, Judge, "")
Behaviour == LET x == Vector IN Emit(x) /\ VecStable(x) /\ (Judge > 0 => SameInFile(x))
=============================================================================
